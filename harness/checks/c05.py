"""C05: offsetting a Gerber file.  FilesMC, FilesTrace."""
import hist


def run(ck):
    hist.run(ck, lambda h: any(o['o'] in ('off', 'coff') for o in h) and all(o['o'] not in ('poke', 'rw') for o in h),
             400 if ck.quick else 8000, 200 if ck.quick else 2000, 60 if ck.quick else 600, 200 if ck.quick else 2000)
