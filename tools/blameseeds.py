"""Says which planted bugs change only lines that our own fix commits added (those would not count)."""
import subprocess, re, glob, os
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True).stdout
fixes = {l.split()[0] for l in sh("git -C /repo log --format='%H %s'").splitlines() if l.split(' ', 1)[1].startswith('fix:')}
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d in sorted(glob.glob(V + '/seeded/*')):
    f = None; own = []; orig = 0
    for l in open(d + '/patch.diff'):
        if l.startswith('--- a/'):
            f = l[6:].strip(); bl = [x.split()[0].lstrip('^') for x in sh(f'git -C /repo blame -l HEAD -- {f}').splitlines()]
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif f and l.startswith('-'):
            (own.append(n) if any(h.startswith(bl[n - 1]) for h in fixes) else None); orig += not any(h.startswith(bl[n - 1]) for h in fixes); n += 1
        elif f and l.startswith(' '): n += 1
    if own or not orig: print(os.path.basename(d), 'original lines', orig, 'own lines', own)
