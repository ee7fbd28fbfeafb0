"""Predicates of the recorded findings: clause, info -> bool."""
PREDICATES = {
    # C11: macros containing a moire primitive (code 6) and otherwise right
    'macro-moire': lambda clause, info: clause == 'macro-moire-missing',
}


def macro_multi(clause, info):
    """several apertures of one macro with different parameters, converted to
    the other units, written and read again"""
    i = info.get('input') or {}
    conv = any(o['o'] in ('inch', 'metric', 'cinch', 'cmetric') for o in i.get('ops', ()))
    return bool(i.get('multi')) and conv and (clause.startswith('rw-macro-') or clause.startswith('rw-aperture-'))


# C05, C03: GerberFile.offset also moves I and J of arc commands, by exactly the vector
PREDICATES['arc-ij'] = lambda clause, info: clause == 'arc-ij-moved-by-offset'
PREDICATES['macro-multi'] = macro_multi

# C15: a layer without mirroring is painted after a mirrored one, and the picture is exactly the one with it mirrored too
PREDICATES['mirror-stays'] = lambda clause, info: clause == 'mirror-stays'
# C15: layers in inches and in millimetres in one picture
PREDICATES['mixed-units'] = lambda clause, info: clause == 'mixed-units' and info['trace']['mixed']
# C20: the picture of the bottom side is exactly the one whose layers below the first of that side are not mirrored
PREDICATES['outline-unmirrored'] = lambda clause, info: clause == 'outline-unmirrored' and info['trace']['view'] == 'bottom'
