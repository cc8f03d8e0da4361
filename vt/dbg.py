import sys, os, time
sys.path.insert(0, '/verif/vt'); sys.path.insert(0, '/verif/contracts')
sys.setrecursionlimit(20000)
import cxxast, values, contract, importlib
def main():
    mods = sys.argv[1].split(','); pat = sys.argv[2] if len(sys.argv) > 2 else ''
    p = cxxast.Program().load(sorted(f for f in os.listdir(cxxast.REPO_SRC) if f.endswith('.cpp')))
    values.set_records(p.records)
    for m in mods: importlib.import_module(m)
    cons = {}
    for c in contract.Contract.REG:
        cons[c.bind(p)] = c
    for c in contract.Contract.REG:
        if pat not in c.name or c.trusted: continue
        r = contract.verify(p, cons, c)
        ok = sum(1 for o in r.obls if o.result.status == 'valid')
        print('%-60s %s obl %d/%d  %.1fs paths %d inl %s' % (c.name[:60], 'ERROR ' + r.error if r.error else '', ok, len(r.obls), r.wall, r.paths, sorted(r.inlined)))
        if r.error and hasattr(r, 'tb'): print(r.tb[-1500:])
        for l in r.loops:
            if '-v' in sys.argv: print('   loop', l['loc'], l['modified'], l['inferred'])
        for o in r.obls:
            if o.result.status != 'valid' or '-a' in sys.argv:
                print('   %s [%s] %s @%s: %s %.1fs %s' % (o.result.status, o.kind, o.name, o.loc, o.result.backend, o.result.time, o.result.reason))
                if '-g' in sys.argv and o.result.status != 'valid':
                    print(o.goal)
                    if '-gg' in sys.argv:
                        for e in o.pc: print('     ', e)
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main); t.start(); t.join()
