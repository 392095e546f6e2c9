"""child process: prove one harness, JSON on stdout"""
import json, os, resource, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    import prove
    path, h, o = sys.argv[1], sys.argv[2], json.loads(sys.argv[3])
    try:
        r = prove.prove(path, h, o)
    except MemoryError:
        r = dict(harness=h, status="undecided", reason="memory limit", obligations={})
    except Exception as e:
        import traceback
        r = dict(harness=h, status="undecided", reason="engine error: %s" % traceback.format_exc()[-1500:], obligations={})
    sys.stdout.write("\nRESULT " + json.dumps(r) + "\n")
