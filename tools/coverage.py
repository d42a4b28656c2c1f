#!/usr/bin/env python3
"""Line coverage of /repo by the cases of the checks (not part of any check): coverage.py core|full C01 C02 ..."""
import glob, importlib, os, re, subprocess, sys, tempfile
sys.path[:0] = ["/verif/lib", "/verif/props"]
import vf
which, ids = sys.argv[1], sys.argv[2:]
vf.WORK = "/tmp/covwork"
os.makedirs(vf.WORK, exist_ok=True)
os.environ["LLVM_PROFILE_FILE"] = "/tmp/covwork/prof/%p-%m.profraw"
env0 = vf.cargo_env
def cargo_env(t):
    e = env0(t)
    e["RUSTFLAGS"] += " -Cinstrument-coverage"
    return e
vf.cargo_env = cargo_env
vf.core_mirror = lambda: None
vf.Check._validate = lambda *a, **k: 0
vf.Check.model_check = lambda *a, **k: None
os.system("rm -rf /tmp/covwork/prof")
b = None
for i in ids:
    ck = vf.Check(i)
    importlib.import_module(i.lower()).run(ck)
    for x in glob.glob("/tmp/covwork/bin-*"):
        b = x
pd = "/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
subprocess.run([pd + "llvm-profdata", "merge", "-sparse", "-o", "/tmp/covwork/all.profdata"] + glob.glob("/tmp/covwork/prof/*.profraw"), check=True)
out = subprocess.run([pd + "llvm-cov", "show", b, "-instr-profile=/tmp/covwork/all.profdata", "--show-instantiations=false"], capture_output=True, text=True)
print(out.stderr[:500])
open("/tmp/covwork/show.txt", "w").write(out.stdout)
f, intest = None, False
for line in out.stdout.split("\n"):
    if line.startswith("/") and line.endswith(":"):
        f, intest = line, False
        if "registry" in f or "harness" in f or "rustc" in f:
            f = None
        continue
    m = re.match(r"\s*(\d+)\|\s*(\S*)\|(.*)", line)
    if f and m:
        if "#[cfg(test)]" in m.group(3):
            intest = True
        if m.group(2) == "0" and not intest:
            print(f.split("/")[-3:], m.group(1), m.group(3)[:110])
