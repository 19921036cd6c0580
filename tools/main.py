import sys, os, importlib, traceback
import vlib

def main():
    pid = sys.argv[1]
    vlib._quiet()
    import registry
    try:
        c = vlib.Check(pid)
        try:
            registry.CHECKS[pid](c)
        except Exception as e:
            if vlib.RAISED:
                print('stopped: %s' % str(e)[-500:])     # after what was raised: reported below
            elif vlib.raised_in_library(e):
                vlib.RAISED.append(dict(error=vlib.err_name(e), site=vlib.raised_in_library(e), traceback=traceback.format_exc()[-3000:]))
            else:
                raise
        rc = c.finish()
    except vlib.MachineryError as e:
        print('MACHINERY-ERROR %s: %s' % (pid, e))
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        vlib.cleanup()
    sys.stdout.flush()
    os._exit(rc)

main()
