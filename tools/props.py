#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'Reading a Gerber file yields exactly the image it describes',
     "Reading a well-formed RS-274X file (absolute notation) yields exactly the graphic objects its commands describe, in file order: lines, arcs, flashes and regions, each with the end points, arc centre, arc direction, aperture (shape, sizes, hole, rotation) and dark/clear polarity that follow from the modal state (current point, operation, aperture, interpolation, quadrant mode, region mode, polarity, units and number format) in force at its command. Omitted coordinates and an omitted operation keep their previous values, moves draw nothing, a region is made of the segments of one contour (closed by a move or by leaving region mode), and nothing else is added, dropped, duplicated or reordered. In single-quadrant mode the arc centre is the one of the four candidates that gives equal radii and a sweep of at most 90 degrees in the commanded direction. The extent (bounds) and size of the file are those of the coordinates it names.",
     ['programs', 'inputs'],
     'Every sequence of G01/G02/G03, G36/G37, G54, G70/G71, G74/G75, D01/D02/D03, Dnn, LP, AD, AM, MO, FS and comment/EOF commands a plotting tool may emit; after an arc inside a region the reader (like gerbv) falls back to linear interpolation, which is part of the specified behaviour; incremental notation, step-and-repeat and image transforms (MI, OF, SF, IR, AS) are outside.',
     'The tests read five files and assert counts, a few statements and rendered pictures; the guarantee quantifies over every command sequence, i.e. over every reachable combination of modal state, which no finite sample of files reaches.',
     ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/primitives.py'],
     [('GerberParser._evaluate_coord/_evaluate_param/_evaluate_mode/_define_aperture/_find_center', 'gerber/rs274x.py'),
      ('CoordStmt.from_dict', 'gerber/gerber_statements.py')],
     ['gerber.loads / gerber.rs274x.loads: .primitives, .units'],
     [('modal state', 'x, y, op, aperture, interpolation, direction, level_polarity, region_mode, quadrant_mode, current_region', 'GerberParser.__init__')])

prop('C02', 'Coordinate numbers keep their value in every digit format',
     "For every digit format of up to 6 integer and 7 decimal digits and for leading and trailing zero suppression, reading a coordinate string yields the value its digit positions define (sign included, a number with an explicit decimal point taken at face value), and writing a value that fits the format yields a string which reads back as that value rounded to the format's resolution. Zero is written as a non-empty string, suppression never changes the value, and the same holds for coordinates inside Gerber and Excellon statements.",
     ['inputs', 'configurations'],
     'All digit strings and signs of every admissible (integer, decimal, suppression) format, and all values representable in it; a value that needs more integer digits than the format has is outside.',
     'The tests list about forty hand-picked strings for two formats; 6 x 7 x 2 formats with up to 10^13 values each are out of their reach.',
     ['gerber/utils.py', 'gerber/gerber_statements.py', 'gerber/excellon_statements.py'],
     [('parse_gerber_value / write_gerber_value', 'gerber/utils.py')],
     ['gerber.utils.parse_gerber_value, gerber.utils.write_gerber_value', 'CoordStmt, CoordinateStmt, ZAxis statements'])

prop('C03', 'Writing a Gerber file and reading it back preserves the image',
     "A Gerber file object that was read, and then possibly offset or converted between units any number of times, when written to disk and read again yields the same sequence of graphic objects, apertures, macros, polarities and units as the object had in memory, up to the rounding of the file's number format (coordinates) and of the printed aperture precision. Writing does not change the object: its image is the same afterwards and writing twice gives the same text.",
     ['programs', 'histories'],
     'Every file whose units are declared and whose coordinates fit the declared format, every history of offset/to_inch/to_metric before writing; aperture sizes and macro numbers with at most four significant digits.',
     'The tests check to_gerber() of isolated statements; none writes a whole file and compares what it depicts, in particular not after conversions, for macros or for omitted operations.',
     ['gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py'],
     [('GerberFile.write and the to_gerber methods', 'gerber/rs274x.py, gerber/gerber_statements.py')],
     ['GerberFile.write, gerber.loads'])

prop('C04', 'Unit conversion never changes the physical geometry',
     "However often and in whatever order a file is converted between inches and millimetres, every coordinate, size, hole, aperture and macro primitive it contains describes the same physical geometry as before (all values scaled by exactly 25.4, counts, angles and flags unscaled), and the reported units say which scale is in force. Converting to the units already in force changes nothing, converting back restores the original values, and no part of an object is converted twice or left behind, also when parts are shared between objects.",
     ['histories', 'inputs'],
     'All finite histories of to_inch/to_metric/offset on Gerber files, on the graphic objects of any kind and nesting (lines, arcs, flashes of every aperture shape with holes, regions, macro groups), on drill tools, drill hits and drill objects, and on IPC-D-356 independent statements.',
     'The tests convert one instance of each class once or twice; shared apertures, nested groups, one-element groups and longer histories are what breaks.',
     ['gerber/primitives.py', 'gerber/rs274x.py', 'gerber/gerber_statements.py', 'gerber/am_statements.py', 'gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/am_primitives'],
     [('Primitive.to_inch/to_metric with the units guard and _to_convert', 'gerber/primitives.py'),
      ('GerberFile.to_inch/to_metric, ExcellonFile.to_inch/to_metric', 'gerber/rs274x.py, gerber/excellon.py')],
     ['.units, geometry attributes of .primitives and .statements before and after'])
P[-1]['anchors']['files'].remove('gerber/am_primitives')

prop('C05', 'Offsetting a file translates everything in it, and nothing else',
     "Offsetting a file by a vector moves every point of every graphic object (line and arc end points, arc centres, flash positions, region contours, macro parts, drill and slot positions) and every absolute coordinate of its commands by exactly that vector, and leaves shapes, sizes, polarities, order and units unchanged. Offsets add up, opposite offsets cancel, and offsetting commutes with unit conversion (the vector taken in the units then in force).",
     ['histories', 'inputs'],
     'All finite histories of offset/to_inch/to_metric on Gerber and (without unit conversion) Excellon files and on single graphic objects of every kind; the relative arc offsets I/J in commands are outside (recorded finding).',
     'The tests offset one instance per class; compositions, nested objects and mixtures with conversions are not sampled.',
     ['gerber/primitives.py', 'gerber/rs274x.py', 'gerber/excellon.py', 'gerber/gerber_statements.py', 'gerber/excellon_statements.py'],
     [('offset methods', 'gerber/primitives.py, gerber/rs274x.py, gerber/excellon.py')],
     ['geometry of .primitives, .statements, .hits after offset'])

prop('C06', 'File-level operations return independent copies',
     "The library-level offset and unit-conversion operations return a new file whose content is the transformed source and leave the source file (its units, settings, commands, graphic objects, tools, apertures and bounding box) exactly as it was. Any further mutation of the copy is invisible in the source, and the other way round.",
     ['histories'],
     'All histories of interleaved operations and in-place mutations on a source file and on copies made from it, for Gerber, Excellon (offset and conversion) files, including files with macros, regions, shared apertures and slots.',
     'No test exists for the operations module; aliasing only shows for particular object graphs and later mutations.',
     ['gerber/operations.py', 'gerber/rs274x.py', 'gerber/excellon.py'],
     [('to_inch, to_metric, offset', 'gerber/operations.py')],
     ['gerber.operations.*; observable state of both files'])

prop('C07', 'Reading an Excellon file yields exactly its holes and slots',
     "Reading a well-formed Excellon file yields exactly the holes, canned slots and routed slots its commands describe, in file order, each with the position(s) and the tool in force, where tools are those defined in the header (or by the separate tool list) with their diameters and omitted coordinates keep their previous value. In incremental notation each coordinate, the second point of a slot included, is relative to the point before it, wherever in the file the notation is switched. Pattern repeats expand to the stated number of evenly stepped holes, routing draws only while the tool is down, tool 0 deselects nothing, and nothing else adds, drops or moves a hole.",
     ['programs', 'inputs'],
     'Every sequence of header and body commands (tool definitions and selections, coordinates with either axis omitted, R repeats, G85 slots, G00/G01/G05 and M15/M16/M17 routing, M00/M30, comments, INCH/METRIC with and without LZ/TZ, M71/M72, FMAT, ICI, G90, FILE_FORMAT comments); canned-cycle extensions outside this list are not covered.',
     'The tests read one drill file and a few two-line snippets; the modal combinations are unbounded.',
     ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/excellon_tool.py', 'gerber/excellon_settings.py'],
     [('ExcellonParser._parse_line', 'gerber/excellon.py')],
     ['gerber.excellon.loads: .hits, .tools, .primitives, .units, .settings'],
     [('parser state', 'INIT/HEADER/DRILL/ROUT/LINEAR..., active tool, position, drill mode, zeros/units/format', 'ExcellonParser.__init__')])

prop('C08', 'Writing an Excellon file and reading it back preserves it',
     "An Excellon file object that was read, and possibly offset, copied or converted to the other units, when written and read again (with the settings it reports) yields the same tools (diameters and drilling parameters) and, for each tool, the same sequence of holes and slots with the same positions, up to the resolution of the number format. Writing does not change the object.",
     ['programs', 'histories'],
     'Every file of the C07 domain that closes its header before its first hole, states its units and whose coordinates fit the number format, with every history of offsets, copies, unit conversions and replacements of the hits by others in another order before writing; a separate tool list is given again when re-reading. Tool parameters changed through update_tool before writing are outside.',
     'One test writes one file and compares its text with the source; slots, routing, repeats, other formats and offsets are not reached.',
     ['gerber/excellon.py', 'gerber/excellon_statements.py', 'gerber/excellon_tool.py'],
     [('ExcellonFile.write and the to_excellon methods', 'gerber/excellon.py, gerber/excellon_statements.py')],
     ['ExcellonFile.write, gerber.excellon.loads'])

prop('C09', 'Re-generating Gerber from graphic objects preserves the image',
     "Rendering a layer through the Gerber-generating context and reading the generated file yields the same image as the layer: the same lines, arcs, flashes, regions and macro flashes with the same geometry, aperture sizes, polarity and order, for any order in which apertures, polarities, modes and positions alternate. Each aperture definition that is emitted stands for exactly the apertures that are geometrically equal to it; the generated program is well formed (apertures selected and polarities set outside regions only, defined before use, single-quadrant offsets without sign), and rendering leaves the objects as they were.",
     ['programs', 'inputs'],
     'Every sequence of graphic objects readable from Gerber files (all standard apertures with and without holes, draws, arcs, flashes, regions, macro flashes), from one or several files, reordered, copied, offset, converted, with unset polarities, in any number format that holds the coordinates. Zero-length draws may be dropped; sizes are written with four significant digits; draws with macro apertures (not allowed by the format) are outside.',
     'One enabled test compares the output for one input with golden text; the modal compression and aperture cache fail only for particular successions.',
     ['gerber/render/rs274x_backend.py', 'gerber/render/render.py', 'gerber/gerber_statements.py'],
     [('Rs274xContext state (_pos, _func, _quadrant_mode, _dcode, _level_polarity, aperture tables)', 'gerber/render/rs274x_backend.py')],
     ['Rs274xContext.render/dump, GerberFile.render, gerber.loads'])

prop('C10', 'Re-generating Excellon from drill objects preserves the drilling',
     "Rendering a drill layer through the Excellon-generating context and reading the generated file yields the same tools, holes and slots: same positions, same diameters, same order within a tool, each emitted once, under the declared units and number format (tools without holes and plating are not carried over).",
     ['programs', 'inputs'],
     'Every drill file of the C07 domain, including routed slots, with offsets before rendering; the context itself declares incremental notation as not supported, so it is given settings in absolute notation.',
     'No test exercises the Excellon-generating context.',
     ['gerber/render/excellon_backend.py'],
     [('ExcellonContext', 'gerber/render/excellon_backend.py')],
     ['ExcellonContext.render_layer/dump + gerber.excellon.loads'])

prop('C11', 'Aperture macros evaluate to the shapes they define',
     "For every aperture macro and actual parameters, each primitive of the flashed aperture has exactly the geometry obtained by evaluating its modifiers left to right under the macro arithmetic rules (+, -, x, /, parentheses, unary sign, precedence, left associativity), with variables holding the latest assignment, actual parameters otherwise, and 0 when undefined. Exposure decides dark or clear, rotation turns a primitive about the macro origin, and two apertures built from one macro never influence each other.",
     ['programs', 'inputs'],
     'All macro texts with primitives 1, 2, 4, 5, 6, 7, 20, 21, 22, 0 and variable definitions, expression trees of any shape, and all parameter lists.',
     'Tests evaluate a handful of fixed macros and one arithmetic expression.',
     ['gerber/am_read.py', 'gerber/am_eval.py', 'gerber/am_statements.py', 'gerber/gerber_statements.py'],
     [('read_macro / eval_macro stack machine', 'gerber/am_read.py, gerber/am_eval.py'),
      ('AMParamStmt.build, AM*Primitive.from_gerber/to_primitive', 'gerber/gerber_statements.py, gerber/am_statements.py')],
     ['flashes of macro apertures in .primitives of gerber.loads'])

prop('C12', 'Bounding boxes are always current, enclosing and tight',
     "The bounding box of every graphic object is the smallest axis-parallel box enclosing what it draws, and it always reflects the object's present state, whatever was asked or changed before: after moving, resizing, rotating, offsetting or converting an object a later query returns what a freshly built equal object would return. The bounding box of a file is the smallest box containing those of all its objects.",
     ['histories', 'inputs'],
     'All histories of queries and mutations (attribute assignment, offset, unit conversion) on graphic objects of every kind, arcs in all quadrants and directions; lines and arcs with round, rectangular, obround and polygonal apertures; the box of a regular polygon is that of its circumscribed circle; for diamonds, obrounds and rounded or chamfered rectangles turned by anything but multiples of 90 degrees the box encloses, but may be as large as that of the full rectangle.',
     'Tests query one or two boxes per class, mostly once; caching errors need query-mutate-query histories, and arcs need all quadrant combinations.',
     ['gerber/primitives.py', 'gerber/rs274x.py', 'gerber/excellon.py'],
     [('memoised _bounding_box cleared by _changed()', 'gerber/primitives.py')],
     ['bounding_box, bounding_box_no_aperture of objects, bounding_box of files and drill hits'])

prop('C13', 'IPC-D-356 netlists are read completely and faithfully',
     "Reading an IPC-D-356 netlist yields one record per test record in file order, each with the net name (aliases from the header resolved), record type, pin, hole, access, coordinates, sizes, rotation, mask and optional text of its columns in the units in force, and continuation lines extend the record they follow. The lists of comments, parameters, nets, components, vias, test points, outlines, conductors and adjacency in the result contain exactly what the file states, and net adjacency is symmetric and uses the resolved names. Drawing one side shows exactly the test points that are accessible from it.",
     ['programs', 'inputs'],
     'All files made of job parameters, comments, 317/327/367-type records with any subset of the optional columns (net, access code 00 to 08 and coordinates are always there), outlines (389), conductors (378), adjacency (379) records, continuations of those three, changes of the units CUST 0/1/2 anywhere, net name aliases, component names longer than their columns when a dash follows them.',
     'Tests read one netlist and a few lines.',
     ['gerber/ipc356.py'],
     [('IPCNetlistParser.parse / IPC356_TestRecord.from_line', 'gerber/ipc356.py')],
     ['gerber.ipc356 read: .components, .vias, .outlines, .adjacent_nets, .test_records, .nets'])

prop('C14', 'Board files are classified, ordered and assembled correctly',
     "A file name that carries a known layer extension or name is always given the class that name stands for, independent of directory, letter case conventions already supported, and of other files; each readable file in a directory whose class is one of the board's (copper, mask, silk, paste, outline, drill, drawing) becomes exactly one layer and unreadable files are skipped with the rest unaffected. Layers are ordered as in the physical stack (with internal layers by number), the board's views contain exactly the layers that belong to that side, and copper layer counts match.",
     ['inputs', 'configurations'],
     'All sets of layer classes and file names built from the documented name tables, in every order of presentation. A name that carries the marks of two classes may be given either.',
     'Tests classify a fixed list of names and sort one or two fixed sets.',
     ['gerber/layers.py', 'gerber/pcb.py', 'gerber/utils.py'],
     [('guess_layer_class, sort_layers, PCBLayer.from_cam, PCB.from_directory', 'gerber/layers.py, gerber/pcb.py')],
     ['gerber.layers.guess_layer_class, sort_layers; gerber.PCB'])

prop('C15', 'The rendered picture shows the last object covering each point',
     "In a picture rendered by the bitmap context every point well inside or well outside all object edges is lit exactly if the last graphic object of the layer that covers the point is dark, where draws, arcs, flashes (with their holes transparent), regions and macro shapes cover what the Gerber format says they cover. Layers paint over each other in the order rendered, each with its colour and opacity over the background, and the picture's coordinate frame maps board coordinates with y pointing up (and x to the left for a mirrored layer) at the requested scale, or at the largest whole scale at which all layers fit the requested size. Rendering the same again gives the same picture.",
     ['programs', 'inputs'],
     'Pictures of one or several layers, each dark, clear, inverted or mirrored, in any colour and opacity, made of lines and arcs with round apertures, lines with rectangle apertures, circle/rectangle/obround/polygon flashes with and without holes, regions with lines and arcs, macro flashes, drill layers with holes and slots, and netlist points; rendered again and again, at a given scale or fitted to a given size. Excluded: draws with other or holed apertures, arcs with apertures that are not round, turned rectangles and obrounds, rectangular holes of turned polygons, points inside self-overlapping contours, and files without objects. Holes and slots are always dark.',
     'Tests compare ten golden pictures byte by byte (most of them do not run reliably); they cannot cover orders of dark and clear objects.',
     ['gerber/render/cairo_backend.py', 'gerber/render/render.py'],
     [('GerberCairoContext._render_* and _new_mask/_flatten', 'gerber/render/cairo_backend.py')],
     ['GerberCairoContext.render_layer + dump_str'])

prop('C16', 'Drill reports and tool bookkeeping match the hits',
     "For every drill file, each tool's hit count equals the number of holes and slots the file makes with it, the path length per tool is the sum of the distances travelled between consecutive hits of that tool, the size reported for a tool is its defined diameter, and the textual report lists every tool with these numbers. Changing a tool's parameters affects exactly that tool and the holes made with it, and the file's bounds enclose exactly the holes and slots.",
     ['programs', 'histories'],
     'All drill files of the C07 domain and all sequences of tool updates, offsets, unit conversions and queries. The path of a tool starts at the origin and follows its slots.',
     'Tests check counts, lengths and report for one file.',
     ['gerber/excellon.py', 'gerber/excellon_tool.py'],
     [('ExcellonFile.report/path_length/hit_count/update_tool', 'gerber/excellon.py')],
     ['ExcellonFile.report, path_length, hit_count, update_tool, bounds'])

prop('C17', 'The meaning of a file does not depend on its text layout',
     "Line-ending style, blank lines, one or several commands per line, line breaks inside parameter blocks, leading zeros of function and operation codes and of coordinates, explicit plus signs, comments, and unknown commands change neither the graphic objects nor the settings read from a Gerber file; line endings, blank lines and comments likewise for Excellon. An included file reads as if its text stood in place of the include command, up to a nesting limit beyond which reading fails instead of looping.",
     ['inputs'],
     'All layouts of all command sequences of the C01, C07 and C11 domains; comments without percent signs; in a Gerber file nothing follows a macro in its block. Settings are the units, zero handling and number format.',
     'All test files have one layout; the tokenizer has three nested modes whose interaction no test samples.',
     ['gerber/rs274x.py', 'gerber/excellon.py'],
     [('GerberParser._split_commands / _parse', 'gerber/rs274x.py')],
     ['gerber.loads of two layouts of the same program'])

prop('C18', 'File type, units and number format are recognised from the content',
     "For every supported file the type (Gerber, Excellon, IPC-D-356) is recognised from its content alone, and the units, notation, zero suppression and digit format in force are exactly those the file declares, whichever of the equivalent declarations is used; an unrecognised text is rejected. The two ways of stating zero handling (zeros kept or zeros suppressed) always denote the same setting, and settings are equal exactly if they denote the same configuration.",
     ['inputs', 'histories', 'configurations'],
     'All headers built from the declaration commands of the three formats (Excellon with its M48 header, IPC-D-356 with a P JOB line, Gerber with a %FS command), all histories of assignments to settings objects. A bare INCH or METRIC leaves the zeros undeclared; what a file does not declare is unspecified.',
     'Tests cover a few declarations each in isolation.',
     ['gerber/common.py', 'gerber/utils.py', 'gerber/cam.py', 'gerber/rs274x.py', 'gerber/excellon.py', 'gerber/excellon_settings.py'],
     [('detect_file_format, FileSettings, FSParamStmt, MOParamStmt, UnitStmt', 'gerber/utils.py, gerber/cam.py')],
     ['gerber.common.loads, FileSettings attributes'])

prop('C19', 'Corners, equality and equivalence of objects follow their present shape',
     "The corners (vertices) of a graphic object with straight edges - rectangle, diamond, chamfered rectangle, regular polygon, a line drawn with a rectangular or polygonal aperture, an outline - are exactly the corners of the area it draws, each once and in order around it, for every position and rotation, and its segments join corners and include every edge; they always reflect the object's present state, whatever was asked or changed before, including changes of its aperture. Two objects are equal exactly if they are of the same kind and agree in everything that defines them, however often either was queried. One object is equivalent to another under a displacement exactly if it is the same shape displaced by it: same kind, sizes, hole, sides and rotation, for groups part by part with their polarities, for outlines joint by joint.",
     ['histories', 'inputs'],
     'All histories of queries, attribute assignments, offsets and unit conversions; all rotations, chamfered corners, numbers of sides and directions of lines, also without length; all pairs of objects and displacements. Lines compare by their end points; a rectangular aperture of a line is not turned; the area of a line with a rectangular aperture has an extent in both directions; objects that are compared were built in the same units.',
     'Tests ask for the corners of objects at the origin once; a stale or wrongly turned corner needs other positions, rotations and query-mutate-query histories, and an equivalence needs pairs that differ in one detail.',
     ['gerber/primitives.py', 'gerber/utils.py'],
     [('vertices, segments, equivalent, __eq__', 'gerber/primitives.py'), ('convex_hull, rotate_point, nearly_equal', 'gerber/utils.py')],
     ['vertices, segments, width, ==, equivalent() of objects'])

prop('C20', 'The command line renders every side of a board from its files',
     "Rendering a directory makes one picture for each of the two sides and one of all copper, named after the output option, and leaves nothing else behind. The picture of a side shows the board outline lowest, then that side's copper, the drills, the soldermask and the silkscreen, each in the colour and opacity the selected theme gives its class, soldermasks as the negative of their files, the bottom side as seen from below; the copper picture shows all copper layers in stack order from below, and the drills. No layer of the other side is on it and none of its own is missing, whatever the files are called within the documented names and in whatever order they are found; files that are no board files are ignored, and sides without layers are left out. The board's outline (else the lowest layer) sets the part shown, the width and height options the size. Rendering single files paints them in the order given in their classes' colours.",
     ['inputs'],
     'Directories with at most one file of each class but for drills and internal layers, all in one unit, whose lowest layer has an extent; the opaque themes; lists of files in inches. Colours and opacities are those the theme objects hold.',
     'No test runs the command.',
     ['gerber/__main__.py', 'gerber/pcb.py', 'gerber/layers.py', 'gerber/render/cairo_backend.py', 'gerber/render/theme.py'],
     [('main', 'gerber/__main__.py'), ('PCB.top_layers/bottom_layers/copper_layers', 'gerber/pcb.py'), ('GerberCairoContext.render_layers', 'gerber/render/cairo_backend.py')],
     ['python -m gerber'])

CHECKS = {}
exec(open(os.path.join(V, 'tools', 'checks.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')

man = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [],
       'not_applicable': [{'property': k, 'reason': r} for k, r in NOT_APPLICABLE.items()],
       'notes': 'TLA+ with TLC; see DESIGN.md. No hooks in /repo: the checks observe the public API only.'}
for p in P:
    i = p['id']
    if i in CHECKS:
        c = {'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
             'level': 'model_checking'}
        c.update(CHECKS[i])
        man['checks'].append(c)
    else:
        assert i in NOT_APPLICABLE, i
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
