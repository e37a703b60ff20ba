PY = '''#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$here" timeout 120 python3 "$here/demo.py" "$PWD/bin" "$tmp"
'''
FTP = '''# stands in for ftplib: serves a text for each name
import os
error_perm = RuntimeError
class FTP:
    def __init__(self, h): pass
    def login(self): pass
    def cwd(self, d): pass
    def retrbinary(self, cmd, cb):
        with open(os.environ['FETCHED'], 'a') as f: print(cmd, file=f)
        import gzip
        b = gzip.compress(cmd.encode())
        cb(b[:9])
        cb(b[9:])
    def quit(self): pass
'''
AOD = '''import os, subprocess, sys
bindir, tmp = sys.argv[1:]
def product(day, first, last, **k):
    h = {'PRODUCER AGENCY': 'GFZ', 'TIME EPOCH (GPS TIME)': '2000-01-01 12:00:00',
         'TIME FIRST OBS(SEC PAST EPOCH)': '1.000000 (%s)' % first,
         'TIME LAST OBS(SEC PAST EPOCH)': '2.000000 (%s)' % last,
         'NUMBER OF DATA RECORDS': '7', 'PRESSURE TYPE (SP OR VI)': 'VI',
         'MAXIMUM DEGREE': '0', 'NUMBER OF DATA SETS': '1'}
    h.update(k)
    fn = os.path.join(tmp, 'AOD1B_%s_X_06.asc' % day)
    with open(fn, 'w') as f:
        for a in h: f.write('%-30s: %s\\n' % (a, h[a]))
        f.write('END OF HEADER\\nDATA SET 01: 1 COEFFICIENTS FOR %s OF TYPE atm\\n0 0 1.0 0.0\\n' % first)
    return fn
def merge(*files):
    return subprocess.run([sys.executable, bindir + '/mergeAod1b.py', '-f', *files, '-o', tmp], cwd=tmp,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
'''
SEEDS = [
dict(id='B38', property='P36', sh=PY,
     needs='two files of successive days that differ in the type of pressure',
     breaks='Products of surface pressure and of vertical integration are merged into one.',
     edits=[('bin/mergeAod1b.py', "'NUMBER OF DATA RECORDS', 'NUMBER OF DATA SETS']:", "'NUMBER OF DATA RECORDS', 'NUMBER OF DATA SETS', 'PRESSURE TYPE (SP OR VI)']:")],
     files={'demo.py': AOD + '''
a = product('2008-07-03', '2008-07-03 00:00:00', '2008-07-03 21:00:00')
b = product('2008-07-04', '2008-07-04 00:00:00', '2008-07-04 21:00:00', **{'PRESSURE TYPE (SP OR VI)': 'SP'})
sys.exit(merge(a, b) == 0)
'''}),
dict(id='B39', property='P37', sh=PY,
     needs='a run over a day of which only the decompressed product was kept',
     breaks='A product that is there decompressed, only, is fetched again.',
     edits=[('bin/getAod1b.py', "        if os.path.isfile(os.path.join(args.out_dir, dct['fn'])) or os.path.isfile(os.path.join(args.out_dir, dct['fn'].replace('.gz',''))):",
             "        if os.path.isfile(os.path.join(args.out_dir, dct['fn'])):")],
     files={'ftplib.py': FTP, 'demo.py': '''import os, subprocess, sys
bindir, tmp = sys.argv[1:]
os.environ['FETCHED'] = tmp + '/log'
open(tmp + '/AOD1B_2008-07-03_X_06.asc', 'w').write('x')
r = subprocess.run([sys.executable, bindir + '/getAod1b.py', '-f', '2008-07-03', '-o', tmp], cwd=tmp)
sys.exit(r.returncode != 0 or os.path.exists(tmp + '/log'))
'''}),
]
