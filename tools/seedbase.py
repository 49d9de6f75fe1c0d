"""Lists planted bugs that change only lines which commits in /repo after its first one added."""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '--reverse', '--grep=^fix:', 'HEAD'], text=True).split()[0] + '^'
for p in sorted(glob.glob(V + '/seeded/*/patch.diff')):
    f, ok = None, False
    for l in open(p, encoding='utf-8', errors='replace'):
        m = re.match(r'--- a/(.*)', l)
        if m:
            f = subprocess.run(['git', '-C', '/repo', 'show', base + ':' + m.group(1).strip()], stdout=subprocess.PIPE).stdout.decode('utf-8', 'replace').split('\n')
        elif l.startswith('-') and not l.startswith('---') and f and re.search(r'\w', l) and l[1:].rstrip('\n') in f:
            ok = True
        elif l.startswith('@@'):
            pass
    if not ok:
        print(os.path.basename(os.path.dirname(p)))
