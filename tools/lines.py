"""For each planted bug: do the lines it removes belong to the original repository?"""
import glob, re, subprocess
for d in sorted(glob.glob('/verif/seeded/*/')):
    f, rem, new, hunk = None, [], 0, False
    for l in open(d + 'patch.diff'):
        if l.startswith('diff '):
            hunk = False
        elif l.startswith('--- ') and not hunk:
            f = l[6:].strip()
        elif l.startswith('@@'):
            n, hunk = int(re.match(r'@@ -(\d+)', l).group(1)), True
        elif hunk and l.startswith('-'):
            rem.append((f, n)); n += 1
        elif hunk and l.startswith('+'):
            new += 1
        elif hunk:
            n += 1
    own = 0
    for f, n in rem:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-L%d,%d' % (n, n), '--', f], capture_output=True, text=True).stdout
        own += not o.startswith('^07873a5')
    print('%-36s removed %d, of own commits %d, added %d' % (d.split('/')[-2], len(rem), own, new))
