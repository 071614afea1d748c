#!/opt/venv/bin/python
"""check.py PROPERTY [quick|thorough]: decide one property."""
import importlib
import os
import sys
import traceback
import warnings

os.environ['TZ'] = 'UTC'
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter('ignore')

import common  # noqa: E402

WHERE = {
    'C01': 'schedule', 'C02': 'schedule', 'C03': 'schedule',
    'C22': 'schedule', 'C24': 'schedule', 'C23': 'defaults', 'C25': 'copies',
    'C26': 'shapes', 'C29': 'schedule', 'C30': 'schedule', 'C27': 'scripts', 'C28': 'scripts',
    'C15': 'schedule', 'C16': 'schedule', 'C18': 'schedule',
    'C04': 'ranges', 'C05': 'queries', 'C06': 'queries', 'C07': 'queries',
    'C10': 'purity', 'C08': 'queries', 'C09': 'queries', 'C19': 'queries',
    'C20': 'lazy', 'C17': 'bounds', 'C21': 'tcal', 'C14': 'directory',
    'C11': 'registry', 'C12': 'registry', 'C13': 'registry',
}


def main(argv):
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        mod = importlib.import_module(WHERE[prop])
        res = mod.check(prop, tier, seed)
        return res.finish()
    except common.MachineryError as e:
        print('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    rc = main(sys.argv)
    sys.stdout.flush()
    sys.exit(rc)
