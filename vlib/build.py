"""Builds the C NameMapper from /repo's working tree, outside /repo."""
import os
import subprocess
import sys
import sysconfig

REPO = '/repo'


class BuildError(Exception):
    pass


def _cc(out, cc, extra):
    srcs = [os.path.join(REPO, 'Cheetah', 'c', '_namemapper.c')]
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cmd = [cc, '-shared', '-fPIC', '-fno-strict-overflow', '-w',
           '-I' + sysconfig.get_paths()['include'],
           '-I' + os.path.join(REPO, 'Cheetah', 'c')] + extra + srcs + [
               '-o', out]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(p.stdout.decode('utf-8', 'replace')[-2000:])
    return out


def build(scratch, need):
    exts = {}
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    if 'c' in need or 'asan' in need:
        exts['c'] = _cc(os.path.join(scratch, 'ext', '_namemapper' + suffix),
                        'gcc', ['-O2', '-DNDEBUG'])
    if 'asan' in need:
        exts['asan'] = _cc(
            os.path.join(scratch, 'extasan', '_namemapper' + suffix), 'gcc',
            ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address',
             '-fsanitize=undefined', '-fno-sanitize-recover=undefined'])
        p = subprocess.run(['gcc', '-print-file-name=libasan.so'],
                           stdout=subprocess.PIPE)
        exts['libasan'] = p.stdout.decode().strip()
        p = subprocess.run(['gcc', '-print-file-name=libubsan.so'],
                           stdout=subprocess.PIPE)
        exts['libubsan'] = p.stdout.decode().strip()
    return exts


def asan_env(exts):
    return {
        'LD_PRELOAD': exts['libasan'] + ' ' + exts['libubsan'],
        'PYTHONMALLOC': 'malloc',
        'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:'
                        'allocator_may_return_null=1:handle_segv=1:'
                        'handle_abort=1:detect_stack_use_after_return=0',
        'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    }


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:]))
