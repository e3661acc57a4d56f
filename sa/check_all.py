#!/usr/bin/env python3
"""developer tool: several properties in one process (same verdict lines as check.py)"""
import os, sys, threading, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
import check
sys.path[:0] = [os.path.join(HERE, 'lib')]


def body():
    import prep
    try:
        facts = prep.load()
    except Exception as e:
        print('ANALYSIS-BROKEN property=ALL %s' % str(e)[-1500:])
        return
    import re
    import props
    ps = sys.argv[1:] or [q['id'] for q in props.P if q['id'] not in os.environ.get('CYCSA_SKIP', '').split()]
    for p in ps:
        try:
            check.run(p, 'quick', facts)
        except Exception as ex:
            traceback.print_exc()
            print('ANALYSIS-BROKEN property=%s %s' % (p, ex))
        sys.stdout.flush()


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=body)
t.start()
t.join()
