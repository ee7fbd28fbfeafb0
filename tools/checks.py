TV = 'TLA+ spec checked with TLC; spec behaviours replayed in the code, recorded traces validated by TLC'
TRUST = ' Trusts TLC, the projection of library objects to spec values in harness/drv and the independent text printer; covers only the programs generated.'


def claim(i, note):
    CHECKS[i] = {'technique': TV, 'level_note': note + TRUST}


claim('C01', 'Every transition of the reader state machine over a small command alphabet (sampled in quick) and long random well-formed walks over a rich alphabet are read by the code and compared object by object with the spec.')
claim('C02', 'Read/write inverse proved exhaustively on the spec for small formats; every class (format up to 6:7, suppression, sign, first and last non-zero digit) is replayed through the number codec and through the statements that use it.')
claim('C11', 'Every expression up to 7 tokens (6 in quick) is compiled by the spec and by the code; random macro programs with all primitives, variables, several apertures per macro are compared shape by shape (tolerance 0.005 unit).')
H = 'Every history of in-place and copying conversions, offsets, rewrites and arbitrary mutations up to 3 operations (4 in thorough) over up to 3 files is enumerated by the spec (object-graph design model checked: shared parts, guarded conversion, deep copies); histories run on random Gerber, macro and drill programs and TLC compares every file (objects, parts, commands, apertures, units, settings, bounding box) after every operation. '
claim('C03', H + 'This check: histories with a write and re-read, own or other number format.')
claim('C04', H + 'This check: histories with at least two conversions.')
claim('C05', H + 'This check: histories with offsets.')
claim('C06', H + 'This check: histories in which a copy is taken and then one of the two is mutated.')

X = 'All programs of a small command alphabet to the bound (sampled) plus long random well-formed walks over the full alphabet; '
claim('C07', X + 'tools, holes, slots, graphic objects and bounds compared exactly with the spec.')
claim('C08', X + 'written and re-read, also after offsets; histories of copies, conversions, offsets and re-writes from FilesMC on random programs.')
claim('C10', X + 'drawn through the Excellon context, re-read and compared.')
claim('C16', X + 'with sequences of reports, tool updates, offsets and conversions; path lengths from an integer square root in the spec.')

claim('C12', 'Every history of queries and changes up to 3 operations (4 in thorough) on 26 objects of every kind is enumerated with the memo protocol (a forgetful memo is shown to fail); sampled histories, all arcs between 12 points of a ring and all rotations run in the code; boxes of objects and files of random programs, also after offsets and conversions, are compared with the spec.')
claim('C13', 'Every sequence of 4 (thorough 5) lines over 17 kinds is model-checked (symmetry, units in force, aliases, one record per line); a sample of them, every subset of optional columns and long random files in several layouts are read by the code and compared record by record.')

claim('C14', 'Every stack of up to 3 (thorough 5) layers in every order of presentation is model-checked (sort is a permutation, order total, views complete); file names from all tables with paths, cases and decorations, directories with damaged and foreign files, and boards from them run in the code and TLC compares classes, order, views and counts.')
claim('C18', 'Every history of up to 3 (thorough 4) assignments to settings objects and every sequence of up to 2 (thorough 3) declarations is model-checked and replayed (sampled); long random headers of the three formats, and texts that are no board file, run through detection and reading; TLC compares type and settings.')
claim('C17', 'Every layout of up to 3 (thorough 4) commands and every include graph of three files is model-checked (the stack reader recovers the commands; textual inclusion; nesting limit); random programs printed with all of these layouts, cut into included files up to and beyond the limit, are read by the code, and the layout reader of the spec drives the plotter of the spec over the same symbols; likewise macro and drill files.')
claim('C09', 'The writer is specified as a state machine; every succession of up to 4 objects of a small alphabet is written and read back by the plotter of the spec (image, agreement of writer and reader state). Programs from these transitions and long random programs with all apertures and macros (also near-equal variants) are rendered by the code; TLC executes the generated text, and compares it and the re-read file with the objects.')
claim('C15', 'Which pixels each kind of object covers, the last-object rule, inversion, mirroring, opacity and the frame are specified; every scene of up to two objects over a small alphabet is model-checked (clear after dark erases, order matters only where objects overlap, mirrored twice is itself) and rendered by the code (sampled), as are random scenes with several layers and random Gerber, macro and drill files; TLC decides about two of three sampled pixels (the others lie too near an edge).')

claim('C19', 'The corners of every kind are specified by rotation and convex hull on integers; every history of queries and changes up to 3 operations (4 in thorough) of 15 objects and all pairs of some hundred objects and displacements are model-checked (corners span the box, move along, equivalence is a relation with one displacement); sampled histories and pairs, all rotations, chamfers, sides and line directions run in the code.')
claim('C20', 'The command is specified as a state machine (read files in any order, order the stack, paint picture by picture); all boards of up to 4 (thorough 6) layers are model-checked (pictures do not depend on the order of files, nearer is later, drills between copper and mask, nothing missing, nothing from the other side). Directories and lists of files from these boards, with random contents, names, themes and options, run through the real command in a folder of its own; TLC decides the pixels of every picture by the model of C15.')

NOT_APPLICABLE = {i: 'check under construction' for i in ['C%02d' % k for k in range(1, 21)] if i not in CHECKS}
