#!/usr/bin/env python3
"""Decides one property: check.py <id>.  Exit 0: held on everything explored;
1 with a VIOLATION line: broken; anything else: no verdict."""
import os, shutil, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    vlib.workdir()
    rc = 3
    try:
        for line in vlib.known_findings(prop):
            print(line)
        import cachechecks, jwtchecks
        mods = [cachechecks] if prop in vlib.CACHE else [jwtchecks, cachechecks] if prop in vlib.BOTH else [jwtchecks]
        try:
            cov, assume = mods[0].check(prop)
            for mod in mods[1:]:
                more, also = mod.check(prop)
                for k, v in more.items():
                    cov[k] = cov[k] + v if isinstance(v, (int, list)) and k in cov else '%s; %s' % (cov[k], v) if k == 'rule' else \
                        dict(cov[k], **v) if k in cov else v
                assume = assume + also
            vlib.write_evidence(prop, cov, assume, 0)
            rc = 0
        except vlib.Violation as v:
            vlib.write_evidence(prop, dict(states=0, transitions=0, traces_validated_against_impl=0,
                                           samples=[v.what], replay=v.replay), [], 1)
            print('VIOLATION property=%s replay=%s' % (prop, v.replay))
            print(v.what)
            rc = 1
        except vlib.CheckError as e:
            print('ERROR: %s' % e, file=sys.stderr)
            rc = 3
        except Exception:
            traceback.print_exc()
            rc = 3
    finally:
        shutil.rmtree(vlib.WORK, ignore_errors=True)
    sys.exit(rc)


if __name__ == '__main__':
    main()
