"""Helper shared by the demonstrations: generate a module with /repo's pybindgen (the current directory), compile it with the
installed compiler in a scratch directory, and run a test script against it in a child process."""
import atexit, io, os, shutil, subprocess, sys, tempfile

REPO = os.getcwd()
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
TMP = tempfile.mkdtemp(prefix='demo')
atexit.register(shutil.rmtree, TMP, True)


def generate(mod):
    from pybindgen import FileCodeSink
    out = io.StringIO()
    mod.generate(FileCodeSink(out))
    return out.getvalue()


def compile_text(name, text, header, ok_to_fail=False, extra=()):
    with open(os.path.join(TMP, 'x.h'), 'w') as f:
        f.write(header)
    cc = os.path.join(TMP, name + '.cc')
    with open(cc, 'w') as f:
        f.write(text)
    so = os.path.join(TMP, name + '.so')
    r = subprocess.run(['g++', '-w', '-g', '-O0', '-std=gnu++14', '-fPIC', '-shared', '-I/opt/pybindgen-tools/include', '-I/usr/include/python3.12',
                        '-I', TMP, *extra, '-o', so, cc], capture_output=True, text=True)
    if r.returncode and not ok_to_fail:
        print(r.stderr[:3000])
        print('FAIL: the generated module does not compile')
        sys.exit(1)
    return r.returncode == 0


def build(mod, header, name=None):
    return compile_text(name or mod.name, generate(mod), header)


def run(script, timeout=120):
    """run `script` in a child interpreter with the built modules on its path; exit 1 when it fails"""
    p = os.path.join(TMP, 'script.py')
    with open(p, 'w') as f:
        f.write(script)
    r = subprocess.run([sys.executable, p], cwd=TMP, env=dict(os.environ, PYTHONPATH=TMP), capture_output=True, text=True, timeout=timeout)
    print(r.stdout[-2000:])
    print(r.stderr[-2000:])
    if r.returncode:
        print('FAIL: exit status %s' % r.returncode)
        sys.exit(1)
    print('OK')
