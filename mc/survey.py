"""development aid: run a whole space without stopping and group what fails"""
import collections
import glob
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from mc import env  # noqa
from mc import drive, prog


def main():
    a = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else 'quick'
    here = os.path.dirname(os.path.abspath(__file__))
    f = glob.glob(os.path.join(here, 'props', a.lower() + '_*.py'))[0]
    modname = 'mc.props.' + os.path.basename(f)[:-3]
    om, ot, np = env.load()
    prog.bind(om, ot)
    import importlib
    mod = importlib.import_module(modname)
    drive.STOP_AFTER = 10**9
    drive.MAX_REPORT = 0
    ev, viol, stats, wall = drive.check(mod, modname, tier)
    g = collections.OrderedDict()
    for c, info in viol:
        site = re.search(r'\[([^\]]*)\]$', info)
        k = info.split(':')[0][:40] + ' @' + (site.group(1) if site else '')
        if 'expected' in info:
            k = re.sub(r'[-+]?\d+(\.\d+)?(e[-+]?\d+)?', '#', info)[:40]
        if isinstance(c, dict) and c.get('ops'):
            k = '/'.join(sorted(set(o[0] for o in c['ops']) - {'mulc', 'add'})) + ' :: ' + k
        g.setdefault(k, []).append((c, info))
    for k, v in sorted(g.items(), key=lambda kv: -len(kv[1]))[:14]:
        print(len(v), k)
        print('      e.g.', drive.canon(v[0][0])[:420])
        print('          ', v[0][1][:260])
    print(a, tier, stats, len(viol), 'violations', round(wall, 1), 's')


main()
