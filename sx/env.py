import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(symbolic):
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    if symbolic and VT not in sys.path:
        sys.path.append(VT)
    os.environ['PYTHONBREAKPOINT'] = '0'
    import logging
    logging.disable(logging.CRITICAL)


def mod_name(prop):
    return 'props.' + prop.lower()
