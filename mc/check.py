"""usage: check.py ID [--tier quick|thorough]   |   check.py --replay FILE"""
import glob
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    # strings hash alike in every run, so that a violation can be replayed
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-W', 'ignore', '-B'] + [os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa (sets the environment before numpy is imported)


def main():
    a = sys.argv[1:]
    from mc import drive
    if a[0] == '--replay':
        return drive.replay(os.path.abspath(a[1]) if os.path.isabs(a[1]) else os.path.join(env.VERIF, a[1]))
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    here = os.path.dirname(os.path.abspath(__file__))
    for f in glob.glob(os.path.join(here, 'props', a[0].lower() + '_*.py')):
        return drive.main('mc.props.' + os.path.basename(f)[:-3], tier)
    sys.stderr.write('no such property\n')
    return 2


if __name__ == '__main__':
    sys.exit(main())
