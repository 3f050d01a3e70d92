"""main.py <driver module> <cases.ndjson> <trace.ndjson>: replays cases on the real code and records events."""
import importlib, json, sys, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, '/repo/src')
from drv import common

def main():
    mod = importlib.import_module('drv.' + sys.argv[1])
    common.quiet()
    with open(sys.argv[3], 'w') as out:
        for line in open(sys.argv[2]):
            c = json.loads(line)
            log = common.Log(c, out)
            common.guarded(lambda: mod.run(c, log), log)
main()
