"""Builds /repo's current working tree, with the instrumentation a check needs.

Every build is keyed by the contents of /repo and of /verif/harness, so a
changed tree is always rebuilt and an unchanged one is reused.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
HARNESS = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, '.build')

WRAPPED = ('malloc calloc realloc strdup strndup pthread_create pthread_attr_init '
           'pthread_mutex_init pthread_cond_init pthread_mutex_destroy '
           'pthread_mutex_lock pthread_mutex_unlock pthread_cond_signal pthread_cond_broadcast '
           'pthread_cond_timedwait pthread_cond_clockwait clock_gettime gettimeofday time socket setsockopt bind listen '
           'accept accept4 connect send sendto recv recvfrom sendmsg recvmsg '
           'shutdown close getaddrinfo fopen fork setsid chdir open pcre2_compile_8 pcre2_match_data_create_from_pattern_8 pcre2_match_8 openlog closelog vsyslog syslog '
           'mutex_lock mutex_lock_shared mutex_unlock mutex_unlock_shared mutex_init mutex_free '
           'condvar_wait condvar_wait_time worker_wait_idle worker_join worker_free').split()

FLAVORS = {
    'asan': '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all',
    'tsan': '-O1 -g -fno-omit-frame-pointer -fsanitize=thread',
    'msan': '-O1 -g -fno-omit-frame-pointer -fsanitize=memory -fsanitize-memory-track-origins',
    'plain': '-O1 -g -fno-omit-frame-pointer',
}


class BuildError(Exception):
    pass


def _hash_tree(h, root, skip):
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x not in skip)
        for f in sorted(files):
            p = os.path.join(d, f)
            if os.path.islink(p) or not os.path.isfile(p):
                continue
            h.update(os.path.relpath(p, root).encode() + b'\0')
            with open(p, 'rb') as fp:
                h.update(fp.read())
            h.update(b'\0')


def tree_hash():
    h = hashlib.sha256()
    _hash_tree(h, REPO, {'.git', '_build', 'build'})
    _hash_tree(h, HARNESS, set())
    with open(os.path.abspath(__file__), 'rb') as fp:
        h.update(fp.read())
    return h.hexdigest()[:20]


def _run(cmd, log, cwd=None):
    with open(log, 'ab') as fp:
        fp.write(('\n$ ' + ' '.join(cmd) + '\n').encode())
        fp.flush()
        r = subprocess.run(cmd, stdout=fp, stderr=fp, cwd=cwd)
    if r.returncode != 0:
        tail = open(log, 'rb').read()[-3000:].decode('latin1')
        raise BuildError('build step failed: %s\n%s' % (' '.join(cmd[:6]), tail))


def _prune(keep):
    try:
        ents = [os.path.join(BUILD, e) for e in os.listdir(BUILD)]
    except OSError:
        return
    dirs = sorted((e for e in ents if os.path.isdir(e) and e != keep),
                  key=lambda e: -os.path.getmtime(e))
    now = time.time()
    for e in dirs[8:]:
        if now - os.path.getmtime(e) > 3600:
            shutil.rmtree(e, ignore_errors=True)


class Built:
    def __init__(self, d):
        self.dir = d

    def __getattr__(self, name):
        return os.path.join(self.dir, name)


def build(flavor):
    """Returns an object whose .host, .openelpd and .unit_* are executables."""
    os.makedirs(BUILD, exist_ok=True)
    d = os.path.join(BUILD, flavor + '-' + tree_hash())
    with open(os.path.join(BUILD, flavor + '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(d, 'ok')):
            os.utime(d)
            return Built(d)
        shutil.rmtree(d, ignore_errors=True)
        _prune(d)
        os.makedirs(d)
        log = os.path.join(d, 'build.log')
        san = FLAVORS[flavor]
        cm = os.path.join(d, 'cm')
        _run(['cmake', '-S', REPO, '-B', cm, '-G', 'Ninja', '-DCMAKE_C_COMPILER=clang',
              '-DCMAKE_BUILD_TYPE=None', '-DBUILD_TESTING=OFF', '-DBUILD_SHARED_LIBS=OFF',
              '-DOPENELP_BUNDLE_PCRE=OFF', '-DOPENELP_USE_OPENSSL=OFF',
              '-DCMAKE_C_FLAGS=%s -Wno-error -w' % san], log)
        _run(['ninja', '-C', cm, 'openelp_objects', 'openelpd'], log)
        objs, main = [], None
        for dd, _, ff in os.walk(cm):
            for f in ff:
                if f.endswith('.o'):
                    p = os.path.join(dd, f)
                    if 'openelp_objects.dir' in dd:
                        objs.append(p)
                    elif 'openelpd.dir' in dd:
                        main = p
        if not objs or main is None:
            raise BuildError('no objects produced')
        wrapo = os.path.join(d, 'wrap.o')
        _run(['clang', '-O1', '-g'] + (san.split() if flavor == 'msan' else []) +
             ['-c', os.path.join(HARNESS, 'wrap.c'), '-o', wrapo], log)
        lockmon = os.path.join(d, 'lockmon.o')
        _run(['clang', '-O1', '-g', '-w', '-fno-builtin', '-I', os.path.join(REPO, 'include'), '-I', os.path.join(REPO, 'src'),
              '-c', os.path.join(HARNESS, 'lockmon.c'), '-o', lockmon] + (san.split() if flavor == 'msan' else []), log)
        # -Wl,--wrap only affects references from the objects linked here
        wl = ['-Wl,' + ','.join('--wrap=' + w for w in WRAPPED)]
        inc = ['-I', os.path.join(REPO, 'include'), '-I', HARNESS]
        pcre = subprocess.run(['pkg-config', '--libs', 'libpcre2-8'], stdout=subprocess.PIPE)
        libs = (pcre.stdout.decode().split() or ['-lpcre2-8']) + ['-lpthread', '-lm']
        procs = []

        def link(out, srcs):
            procs.append((['clang'] + san.split() + ['-w'] + inc + srcs + objs + [wrapo, lockmon] +
                          wl + libs + ['-o', os.path.join(d, out)]))
        link('host', [os.path.join(HARNESS, 'host.c')])
        link('openelpd', [main])
        for f in sorted(os.listdir(HARNESS)):
            if f.startswith('unit_') and f.endswith('.c'):
                link(f[:-2], [os.path.join(HARNESS, f)])
        errs = []
        ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in procs]
        for c, p in ps:
            o = p.communicate()[0]
            if p.returncode != 0:
                errs.append(' '.join(c) + '\n' + o.decode('latin1')[-3000:])
        # a unit harness that no longer compiles must not take the others down
        with open(os.path.join(d, 'link_errors'), 'w') as fp:
            fp.write('\n'.join(errs))
        if not os.path.exists(os.path.join(d, 'host')):
            raise BuildError('link failed\n' + '\n'.join(errs)[-3000:])
        open(os.path.join(d, 'ok'), 'w').close()
        return Built(d)


if __name__ == '__main__':
    for f in sys.argv[1:] or ['asan', 'tsan', 'msan']:
        print(build(f).dir)
