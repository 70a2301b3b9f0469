import sys, importlib, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
if __name__ == '__main__':
    mod = importlib.import_module('contracts.' + sys.argv[1])
    for prop in sys.argv[2].split(','):
        for u in mod.units(prop):
            if len(sys.argv) > 3 and sys.argv[3] not in u.name:
                continue
            u.run()
            bad = [o for o in u.obls if o.status != 'proved']
            print("%-28s %3d obl %2d bad %3d paths %5.1fs restarts %d %s" % (u.name, len(u.obls), len(bad), u.npaths, u.secs, u.restarts, u.error or ''))
            for o in bad:
                print("    FAILED", o.name, o.status, o.detail or '', o.model)
            if u.skipped: print("   skipped:", list(u.skipped)[:20])
            if bad or u.error: print("   dropped:", u.tables.dropinfo[:20])
