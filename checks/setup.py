"""setup_cmd: compile the Java overrides and self-test the arithmetic (the
overrides and the pure TLA+ definitions must agree)."""
import os, re, sys, shutil
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib
ck = vlib.Check("setup", "other")
try:
    a = vlib.Tlc(ck.scratch, "BigTest.tla", "BigTest.cfg", ov=True)
    b = vlib.Tlc(ck.scratch, "BigTest.tla", "BigTest.cfg", ov=False)
    pick = lambda t: re.findall(r"^(?:<<|   |\s+<<).*$", t.out, re.M)
    assert a.rc == 0 and b.rc == 0, (a.error, b.error)
    assert pick(a) == pick(b) and len(pick(a)) > 100
    print("arithmetic self-test: overrides and pure TLA+ definitions agree on", len(pick(a)), "lines")
finally:
    shutil.rmtree(ck.scratch, ignore_errors=True)
