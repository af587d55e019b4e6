import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

if __name__ == '__main__':
    from sim import runner
    if len(sys.argv) > 2 and sys.argv[1] == '--worker':
        # fixed addresses: iteration orders that depend on them become reproducible
        import ctypes
        libc = ctypes.CDLL(None)
        if not libc.personality(0xffffffff) & 0x0040000 and not os.environ.get('VERIF_NOASLR'):
            os.environ['VERIF_NOASLR'] = '1'
            if libc.personality(0x0040000) != -1:
                os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
    if len(sys.argv) > 2 and sys.argv[1] == '--worker':
        runner.worker_main(sys.argv[2])
        sys.exit(0)
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    from sim import checks
    import traceback
    try:
        check = checks.all_checks()[a.property]()
        if a.replay:
            rc = runner.replay(check, a.replay)
        else:
            print('%s seed=%d tier=%s' % (a.property, a.seed, a.tier), flush=True)
            rc = runner.run_check(check, a.tier, a.seed)
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
