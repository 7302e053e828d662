import importlib, os, re, sys, traceback, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    mods = glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), pid.lower() + '_*.py'))
    if len(mods) != 1:
        print('no check for', pid)
        return 2
    mod = importlib.import_module(os.path.basename(mods[0])[:-3])
    from common import Check
    ck = Check(pid)
    try:
        mod.run(ck)
    except (Exception, SystemExit) as exc:
        # an exception escaping from the code under test on a valid input is an
        # observation; anything else is a failure of the machinery
        frames = traceback.extract_tb(exc.__traceback__)
        here = os.path.dirname(os.path.abspath(__file__))
        last = max([i for i, f in enumerate(frames) if f.filename.startswith(here)] or [0])
        inner = [f for f in frames[last + 1:] if f.filename.startswith(os.environ.get('VERIF_REPO', '/repo') + '/')]
        traceback.print_exc(file=sys.stdout)
        if inner:
            f = inner[0]
            ck.violate('escaped-exception:%s:%s' % (type(exc).__name__, f.name),
                       {'exception': repr(exc)[:400], 'called': f.name, 'file': f.filename,
                        'from': '%s:%d' % (frames[last].filename, frames[last].lineno)})
            return ck.finish()
        remote = re.findall(r'File "(%s/[^"]*)", line \d+, in (\w+)' % re.escape(os.environ.get('VERIF_REPO', '/repo')), str(exc.__cause__ or ''))
        if remote:
            ck.violate('escaped-exception:%s:%s' % (type(exc).__name__, remote[-1][1]), {'exception': repr(exc)[:400], 'called': remote[0][1], 'file': remote[-1][0]})
            return ck.finish()
        # results that cannot be read as what the calls promise (missing columns, other shapes,
        # not a number): the same inputs give readable results where the property holds
        if isinstance(exc, (ValueError, KeyError, IndexError, TypeError, AssertionError, ZeroDivisionError, OverflowError, FileNotFoundError, UnicodeError)):
            f = frames[last]
            ck.violate('unusable-result:%s:%s' % (type(exc).__name__, f.name), {'exception': repr(exc)[:400], 'read at': '%s:%d %s' % (f.filename, f.lineno, f.line)})
            return ck.finish()
        import shutil
        shutil.rmtree(ck.work, ignore_errors=True)
        print('MACHINERY ERROR in', pid)
        return 2
    return ck.finish()


if __name__ == '__main__':
    import io
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
