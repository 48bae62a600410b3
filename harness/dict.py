"""dict.py <repo>: the numeric literals of the sources, one line (values the replay should try)"""
import sys, re, glob
out = set()
for pat in ('fbstab/*.h', 'fbstab/*.cc', 'fbstab/components/*.h', 'fbstab/components/*.cc', 'tools/*.h'):
    for f in glob.glob(sys.argv[1] + '/' + pat):
        s = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"|#[^\n]*', ' ', open(f, errors='replace').read(), flags=re.S)
        for m in re.finditer(r'(?<![\w.])(\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?)(?![\w.])', s):
            try: out.add(float(m.group(1)))
            except ValueError: pass
print(' '.join(repr(x) for x in sorted(out)))
