"""C03: writing a Gerber file and reading it again.  FilesMC, FilesTrace."""
import hist


def op(o, f):
    return {'o': o, 'f': f, 'v': [], 'g': 0, 'fmt': []}


MULTI = {'multi': True, 'ops': [op('metric', 1), op('rw', 1)], 'text': """%FSLAX34Y34*%
%MOIN*%
%AMBOX*21,1,$1,$2,0,0,0*%
%ADD10BOX,1X2*%
%ADD11BOX,3X4*%
D10*
X10000Y10000D03*
D11*
X30000Y10000D03*
M02*
"""}


def run(ck):
    hist.run(ck, lambda h: any(o['o'] == 'rw' for o in h) and all(o['o'] != 'poke' for o in h),
             500 if ck.quick else 8000, 200 if ck.quick else 2000, 60 if ck.quick else 600, dedicated=[MULTI])
