"""Builds the drivers from the sources in /repo as they are now."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get('VF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARNESS = os.path.join(VERIF, 'harness')
FLAGS = ['-w', '-O1', '-std=gnu++14', '-include', 'numeric']


class BuildError(Exception):
    pass


def sources(dirs):
    out = []
    for d in dirs:
        for root, sub, files in os.walk(os.path.join(REPO, d)):
            sub[:] = [s for s in sub if s not in ('tests', 'Testing', '_build', '.git')]
            for f in files:
                if f.endswith(('.cpp', '.cxx', '.cc', '.c', '.h', '.hpp', '.hxx', '.txx', '.in', '.txt')):
                    out.append(os.path.join(root, f))
    return sorted(out)


def digest(files, salt=''):
    h = hashlib.sha256(salt.encode())
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fh:
            h.update(fh.read() + b'\0')
    return h.hexdigest()[:20]


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout


def locked(path):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    fh = open(path, 'w')
    fcntl.flock(fh, fcntl.LOCK_EX)
    return fh


def configured(gen):
    """the headers CMake makes from .h.in files"""
    for d, n in (('TestingFramework', 'TESTINGFRAMEWORK'), ('FileUtilities', 'FILEUTILITIES')):
        os.makedirs(os.path.join(gen, d), exist_ok=True)
        for f in glob.glob(os.path.join(REPO, d, '*.h.in')):
            t = open(f).read().replace('@PROJECT_NAME@', n).replace('@BUILD_SHARED_LIBS@', '0')
            open(os.path.join(gen, d, os.path.basename(f)[:-3]), 'w').write(t)


def has_main(f):
    import re
    t = open(f, errors='replace').read()
    return re.search(r'\bint\s+main\s*\(', t) is not None


def library_sources(dirs, exts=('.cpp', '.cxx', '.cc', '.c')):
    return [f for f in sources(dirs) if f.endswith(exts) and not has_main(f)]


def compile_all(jobs, out):
    """jobs: (source, object, flags)"""
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda j: run(['g++'] + j[2] + ['-c', j[0], '-o', j[1]]), jobs))


def finish(tmp, out):
    if os.path.isdir(out):
        shutil.rmtree(tmp)
    else:
        os.rename(tmp, out)


def tf(variant='plain'):
    """the driver of the framework without ITK; returns its path"""
    extra = {'plain': [], 'asan': ['-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined',
                                  '-fno-sanitize=vptr,alignment', '-fno-omit-frame-pointer']}[variant]
    dirs = ['TestingFramework', 'FileUtilities']
    drv = os.path.join(HARNESS, 'tfdrv.cpp')
    key = digest(sources(dirs) + [drv], repr((FLAGS, extra, variant)))
    out = os.path.join(BUILD, 'tf-%s-%s' % (variant, key))
    exe = os.path.join(out, 'tfdrv')
    if os.path.exists(exe):
        return exe
    with locked(os.path.join(BUILD, '.lock-tf-' + variant)):
        if os.path.exists(exe):
            return exe
        tmp = out + '.tmp%d' % os.getpid()
        os.makedirs(tmp)
        gen = os.path.join(tmp, 'gen')
        configured(gen)
        flags = FLAGS + extra + ['-I' + REPO, '-I' + gen, '-I' + gen + '/FileUtilities', '-I' + gen + '/TestingFramework',
                                 '-I' + REPO + '/TestingFramework', '-I' + REPO + '/FileUtilities']
        jobs, objs = [], []
        for i, f in enumerate([drv] + library_sources(dirs)):
            o = os.path.join(tmp, '%d.o' % i)
            jobs.append((f, o, flags)); objs.append(o)
        try:
            compile_all(jobs, tmp)
            run(['g++'] + extra + objs + ['-lexpat', '-o', os.path.join(tmp, 'tfdrv')])
        except BuildError:
            shutil.rmtree(tmp)
            raise
        for o in objs:
            os.unlink(o)
        finish(tmp, out)
    return exe


def itk():
    """the driver with ITK, and the tools; returns their directory"""
    dirs = ['TestingFramework', 'FileUtilities', 'itktf']
    drv = os.path.join(HARNESS, 'tfdrv.cpp')
    lists = os.path.join(HARNESS, 'itk', 'CMakeLists.txt')
    key = digest(sources(dirs) + [drv, lists], 'itk 1')
    out = os.path.join(BUILD, 'itk-' + key)
    if os.path.exists(out):
        return out
    with locked(os.path.join(BUILD, '.lock-itk')):
        if os.path.exists(out):
            return out
        tmp = out + '.tmp%d' % os.getpid()
        gen = os.path.join(tmp, 'gen')
        configured(gen)
        os.makedirs(os.path.join(gen, 'itktf'))
        # relative to the directory of a run, so that each has its own
        for f in glob.glob(os.path.join(REPO, 'itktf', '*.h.in')):
            t = open(f).read().replace('@ITK_REGRESSION_OUTPUT_DIR@', '.').replace('@ITK_REGRESSION_DATA_BASELINE@', 'data').replace('@ITK_REGRESSION_XML_BASELINE@', '.')
            open(os.path.join(gen, 'itktf', os.path.basename(f)[:-3]), 'w').write(t)
        tools = [f for f in sources(dirs) if f.endswith(('.cpp', '.cxx', '.cc')) and has_main(f)]
        try:
            run(['cmake', '-S', os.path.dirname(lists), '-B', tmp, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=None', '-DREPO=' + REPO, '-DGEN=' + gen,
                 '-DDRIVER=' + drv, '-DLIB=' + ';'.join(library_sources(dirs)), '-DTOOLS=' + ';'.join(tools)],
                env=dict(os.environ, CC='gcc', CXX='g++'))
            subprocess.run(['ninja', '-C', tmp, '-k', '0', 'all', 'itkcomposed'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            run(['ninja', '-C', tmp])
        except BuildError:
            shutil.rmtree(tmp)
            raise
        finish(tmp, out)
    return out
