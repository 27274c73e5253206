"""Writes /verif/build: manifests under which cargo can load REPO's crates here.

Only manifests are generated (and proto's build script and definitions, which are
found relative to the manifest); the sources compiled are REPO's own files, in
place.  The dependencies that cannot be had offline are pointed at /verif/sim:
rocksdb -> sim/rocksdb, ../malachite/... -> sim/malachite/...

    mktree.py REPO OUT
"""
import os, re, shutil, sys

repo, out = os.path.abspath(sys.argv[1]), os.path.abspath(sys.argv[2])
here = os.path.dirname(os.path.abspath(__file__))


def put(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def manifest(rel, extra_lib):
    t = open(os.path.join(repo, rel, "Cargo.toml")).read()
    t = re.sub(r'(?m)^rocksdb\s*=.*$', 'rocksdb = { path = "%s/rocksdb", features = ["multi-threaded-cf", "jemalloc"] }' % here, t)
    t = re.sub(r'(?m)^default-run.*\n', '', t)
    t = re.sub(r'path = "(\.\./)+malachite/', 'path = "%s/malachite/' % here, t)
    return t


root = manifest("", None)
root = root.replace('members = ["proto", "cli"]', 'members = ["proto"]')
root = re.sub(r'(?m)^path = "src/lib.rs"', 'path = "%s/src/lib.rs"' % repo, root)
root = re.sub(r'(?m)^edition = "2021"', 'edition = "2021"\nautobins = false\nautotests = false\nautoexamples = false', root, count=1)
put(os.path.join(out, "snapchain", "Cargo.toml"), root)

proto = manifest("proto", None)
proto = re.sub(r'(?m)^edition = "2021"', 'edition = "2021"\nautobins = false', proto, count=1)
proto += '\n[lib]\npath = "%s/proto/src/lib.rs"\n' % repo
put(os.path.join(out, "snapchain", "proto", "Cargo.toml"), proto)
put(os.path.join(out, "snapchain", "proto", "build.rs"), open(os.path.join(repo, "proto", "build.rs")).read())
src = os.path.join(repo, "proto", "definitions")
dst = os.path.join(out, "snapchain", "proto", "definitions")
want = set()
for d, _, fs in os.walk(src):
    for f in fs:
        r = os.path.relpath(os.path.join(d, f), src)
        want.add(r)
        put(os.path.join(dst, r), open(os.path.join(d, f)).read())
for d, _, fs in os.walk(dst):
    for f in fs:
        if os.path.relpath(os.path.join(d, f), dst) not in want:
            os.remove(os.path.join(d, f))

# sol! reads its ABI files relative to the manifest.
link = os.path.join(out, "snapchain", "src")
if not os.path.islink(link) or os.readlink(link) != os.path.join(repo, "src"):
    if os.path.lexists(link):
        os.remove(link)
    os.symlink(os.path.join(repo, "src"), link)

# Two libraries whose clock or threads the simulator must own: tokio runs blocking
# tasks on the thread that spawned them, quanta reads clock_gettime instead of rdtsc.
reg = os.environ.get("CARGO_HOME", "/root/.cargo") + "/registry/src"
reg = os.path.join(reg, sorted(os.listdir(reg))[0])
lock = open(os.path.join(repo, "Cargo.lock")).read()


def patched(name, edits):
    v = [x for x in re.findall(r'name = "%s"\nversion = "([^"]+)"' % name, lock)][-1]
    a, b = os.path.join(reg, "%s-%s" % (name, v)), os.path.join(out, name)
    mark = os.path.join(b, ".from")
    want = v + repr(edits)
    if os.path.exists(mark) and open(mark).read() == want:
        return
    shutil.rmtree(b, ignore_errors=True)
    shutil.copytree(a, b, ignore=shutil.ignore_patterns(".cargo-ok"))
    for f, old, new in edits:
        t = open(os.path.join(b, f)).read()
        if t.count(old) != 1:
            sys.exit("mktree: %s %s: %r not found once" % (name, f, old))
        open(os.path.join(b, f), "w").write(t.replace(old, new))
    open(mark, "w").write(want)


patched("tokio", [("src/runtime/blocking/pool.rs",
                   "        let mut shared = self.inner.shared.lock();\n\n        if shared.shutdown {\n            // Shutdown the task",
                   "        if matches!(rt.inner, crate::runtime::scheduler::Handle::CurrentThread(_)) {\n            task.run();\n            return Ok(());\n        }\n        let mut shared = self.inner.shared.lock();\n\n        if shared.shutdown {\n            // Shutdown the task")])
patched("quanta", [("src/lib.rs", "if detection::has_counter_support() {", "if false && detection::has_counter_support() {")])
