"""C06: independence of copies.  FilesMC, FilesTrace."""
import hist


def run(ck):
    ck.must_fail('FilesMC', 'FilesMCd', 'Separate', 'a shallow copy')
    hist.run(ck, lambda h: any(o['o'] in ('coff', 'cinch', 'cmetric') for o in h[:-1]) and all(o['o'] != 'rw' for o in h)
             and h[-1]['o'] in ('inch', 'metric', 'off', 'poke'),
             400 if ck.quick else 8000, 200 if ck.quick else 2000, 60 if ck.quick else 600, 200 if ck.quick else 2000,
             ignore=('arc-ij-moved-by-offset',))
