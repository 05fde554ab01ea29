import sys, time
sys.path.insert(0, __import__('os').environ.get('V','/verif'))
from sa import rules
for f in sys.argv[1:]:
    L = rules.Ledger("x")
    t = time.time()
    n = rules.apply_ref(L, f)
    v = L.violations()
    print(f, n, len(L.obl), "bad", len(v), "%.1fs" % (time.time() - t))
    for o in v[:40]:
        print("   ", o[1], o[0], o[3][:300])
