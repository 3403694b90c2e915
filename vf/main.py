"""Entry point: python -m vf.main <property id>"""
import importlib, os, sys, time, traceback

PROPS = {}


def main():
    pid = sys.argv[1]
    from vf.common import Check
    mod = importlib.import_module(f'vf.p_{pid.lower()}')
    chk = Check(pid)
    try:
        mod.run(chk)
        rc = chk.finish()
    except Exception:
        traceback.print_exc()
        print(f'ERROR property={pid}: the check itself failed', flush=True)
        rc = 2
    finally:
        chk.cleanup()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
