"""The findings file of C02: run `VERIF_DUMP=f ./check C02` (both tiers), then
mkc02.py f1 f2 ... groups the failing keys by mnemonic into known-findings-C02.txt."""
import sys, collections
G, ex = collections.defaultdict(set), {}
for p in sys.argv[1:]:
    for l in open(p):
        k, w = l.rstrip("\n").split("\t", 1)
        m = k.split(":")[1]
        G[m].add(k)
        if m not in ex or len(w) < len(ex[m]):
            ex[m] = w
with open("/verif/known-findings-C02.txt", "w") as o:
    for m in sorted(G):
        o.write("%s\t%s (%d forms)\t%s\n" % (m, ex[m][:230], len(G[m]), " ".join(sorted(G[m]))))
print(len(G), sum(map(len, G.values())))
