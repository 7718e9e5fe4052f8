#!/usr/bin/env python3
"""relax.py OUTDIR GO.MOD: let GO.MOD use a copy of the pinned table module in
which a table's lock is not held while it sleeps between two attempts to open a
hand.

In the virtual time of testing/synctest a goroutine that waits for a lock
counts as running, so virtual time would stand still for ever while another
one sleeps with that lock."""
import os, shutil, subprocess, sys

out, mod = sys.argv[1:3]
env = dict(os.environ, GOFLAGS="-mod=mod")
d = subprocess.run(["go", "list", "-m", "-f", "{{.Dir}}", "github.com/weedbox/pokertable"], cwd="/repo", env=env, capture_output=True, text=True, check=True).stdout.strip()
c = os.path.join(out, "pokertable")
shutil.rmtree(c, ignore_errors=True)
shutil.copytree(d, c)
subprocess.run(["chmod", "-R", "u+w", c], check=True)
# a cancelled task may still be run as well: two goroutines of the timer module
# then call the same function
f = os.path.join(c, "table_engine_internal.go")
s = open(f).read()
if s.count("defer wg.Done()\n\n\t\tif isCancelled") == 1:
    s = s.replace("defer wg.Done()\n\n\t\tif isCancelled", "defer once.Do(wg.Done)\n\n\t\tif isCancelled").replace("var wg sync.WaitGroup\n\twg.Add(1)\n\n\tte.tbForOpenGame", "var wg sync.WaitGroup\n\tvar once sync.Once\n\twg.Add(1)\n\n\tte.tbForOpenGame")
    open(f, "w").write(s)
f = os.path.join(c, "table_engine_stage.go")
s = open(f).read()
old = "time.Sleep(time.Second * 3)"
if s.count(old) == 1:
    open(f, "w").write(s.replace(old, "te.lock.Unlock(); " + old + "; te.lock.Lock()"))
    subprocess.run(["go", "mod", "edit", "-replace", "github.com/weedbox/pokertable=" + c, mod], env=env, check=True)
