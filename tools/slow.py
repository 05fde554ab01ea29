import sys, time
sys.path.insert(0, '/verif')
from sa import rules
L = rules.Ledger("x")
for e in rules.read_ref(sys.argv[1]):
    t = time.time()
    print(e.where(), end=" ", flush=True)
    L.guard("m", e.where(), lambda: rules.run_entry(L, e, "m"))
    dt = time.time() - t
    print("%.2f" % dt, "SLOW" if dt > 1 else "", flush=True)
