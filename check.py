#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decide one property of /repo statically."""
import os
import sys
sys.dont_write_bytecode = True
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def run():
        from tdsa import rules
        from tdsa.harness import AnchorMissing
        try:
            res.append(rules.run(pid, tier))
        except AnchorMissing as e:
            print('ANALYSIS-BROKEN %s: anchor missing: %s' % (pid, e))
            res.append(2)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except (ImportError, ValueError, OSError):
        pass
    t = threading.Thread(target=run, daemon=True)
    t.start()
    t.join(840)
    if t.is_alive():
        from tdsa import rules
        for _ in range(20):
            try:
                res.append(rules.cut_short('still running after 840 s'))
                break
            except RuntimeError:        # the other thread changed a table meanwhile
                pass
    sys.stdout.flush()
    os._exit(res[0] if res else 3)


if __name__ == '__main__':
    main()
