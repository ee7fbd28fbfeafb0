import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shutil
import tempfile
from obs import *
import gerber
from gerber import rs274x


def handle(t):
    d = tempfile.mkdtemp()
    try:
        for name, text in t['files']:
            fn = os.path.join(d, name)
            if not os.path.isdir(os.path.dirname(fn)):
                os.makedirs(os.path.dirname(fn))
            with open(fn, 'wb') as h:
                h.write(text.encode('utf-8'))
        main, text = t['files'][0]
        fn = os.path.join(d, main)
        how = t['how']
        if how == 'read':
            f = rs274x.read(fn)
        elif how == 'gread':
            f = gerber.read(fn)
        elif how == 'loads':
            f = rs274x.loads(text, fn)
        else:
            f = gerber.loads(text, fn)
        sc = Scale(t['cs'], t['ss'])
        st = f.settings
        return {'img': image(f.primitives, sc),
                'set': {'units': str(f.units), 'zs': str(st.zero_suppression), 'format': list(st.format), 'notation': str(st.notation)}}
    finally:
        shutil.rmtree(d)


main(handle)
