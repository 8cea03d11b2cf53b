"""compile and run a C program against the library in its own process; answers (how it ended, output)"""
import subprocess, sys


def c(tmp, body, memcheck=False):
    open(tmp + '/p.c', 'w').write('#include "tsw.h"\nint main(void) {\n' + body + '\nreturn 0;\n}\n')
    r = subprocess.run(['gcc', '-g', '-o', 'p', 'p.c', '-L' + tmp + '/target/debug', '-ltsfile_writer_c', '-Wl,-rpath,' + tmp + '/target/debug'], cwd=tmp, capture_output=True, text=True)
    if r.returncode:
        print(r.stderr)
        sys.exit(3)
    cmd = ['./p']
    if memcheck:
        cmd = ['valgrind', '-q', '--error-exitcode=99', './p']
    r = subprocess.run(cmd, cwd=tmp, capture_output=True, text=True)
    return r.returncode, r.stdout, r.stderr


def fail(*a):
    print('FAIL:', *a)
    sys.exit(1)
