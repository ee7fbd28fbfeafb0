"""C04: unit conversion of Gerber files.  FilesMC (design), FilesTrace."""
import hist

CONV = ('inch', 'metric', 'cinch', 'cmetric')


def run(ck):
    ck.must_fail('FilesMC', 'FilesMCg', 'Physical', 'a conversion without a guard on shared parts')
    hist.run(ck, lambda h: sum(o['o'] in CONV for o in h) >= 2 and all(o['o'] not in ('poke', 'rw') for o in h),
             400 if ck.quick else 8000, 200 if ck.quick else 2000, 60 if ck.quick else 600, 200 if ck.quick else 2000,
             ignore=('arc-ij-moved-by-offset',))
