"""Writes /verif/properties.jsonl (kept as a script so that statements are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})
G = "gcodeutils/gcoder.py"
p("C01", "Reading a program and writing it back loses nothing",
  "Reading any list of text lines succeeds, and writing the program gives back every non-blank line, with surrounding whitespace removed, exactly once and in the original order, one per output line. This holds whatever the lines contain: commands, comments, words without numbers, free text or non-ASCII characters.",
  ["inputs", "programs"], "every sequence of lines of printable text (no line terminators inside a line)",
  "The tests read a few well-formed files; layer splitting and parsing run over every line, so any line content or layer structure can lose, duplicate, reorder or reject lines.",
  [G], [("GCode.prepare strips and keeps lines", G), ("layers hold every line", "GCode._preprocess"), ("GCode.write", G)],
  observe=["GCode(lines).write(stream)", "gcode_mod without options"])
p("C02", "Lines are read as the command and the words they contain",
  "A line is read as its first G, M or T word, and on G lines the numeric value of each X, Y, Z, E, F, I and J word (the last one if repeated; none for a letter without a number); S and P give the first S and P word of any command line. Letter case, spaces between words, an N line number before the command, a checksum, other words and comments (after a semicolon or in parentheses) never change what is read, and a line with only comments has no command.",
  ["inputs"], "every line made of an optional line number, a command with a non-negative integer code without leading zeros, words made of a letter directly followed by an optionally signed decimal number or nothing, comments without nested parentheses, optional checksum",
  "The tests contain a few dozen line shapes; the grammar has unboundedly many combinations of case, order, spacing, comments and number forms.",
  [G], [("gcode_exp tokenisation", "split"), ("parse_coordinates", G)], observe=["attributes of the lines of a GCode object", "raw_to_line", "S(line)", "P(line)"])
p("C03", "The tracked position is where a printer would be after each line",
  "After every command line the recorded machine X, Y, Z, E and feedrate, and whether the line extrudes, are those of a printer executing the program: absolute and relative moves (G90/G91 for all axes and E, M82/M83 for E, the last one wins), G92 (all axes when it names none), G28 (the named axes, all when it names none), inches (G20/G21, also F and E) and home position; moves are recorded with their tool and the modes in force. The final position, coordinates relative to the G92 origin, units, modes, tool and filament fed so far (and its maximum) of the program object agree too, also when lines are appended one by one, and a line callback is given each line with that position.",
  ["programs", "histories"], "every sequence of G0-G3, G20/21, G28, G90/91/92, M82/83, T and other lines with decimal words, any home position, read at once, deferred, from a stream, as light lines, or appended",
  "Tests never check positions; state depends on the whole history of mode, unit, offset and homing commands.",
  [G], [("position tracking", "GCode._preprocess"), ("append keeps state", "GCode.append")],
  state=[("current_x/y/z/e", "machine position", G), ("offset_*", "origin set by G92", G), ("relative, relative_e, imperial", "modes", G)],
  observe=["line.current_*", "line.extruding", "gcode.current_*", "gcode.abs_*"])
p("C04", "Layers split the program at each change of Z, with their printed heights",
  "Layers are consecutive, cover every line once, and a new one starts exactly at each move or G92 line which sets the commanded Z to another value, so that all lines of a layer share one Z. The set of printed heights is exactly the set of Z at which at least one extruding move ends. A layer callback is called for each layer but the last, in order, once it is complete.",
  ["programs"], "every program whose successive different heights are at least 0.05 mm apart (no vase mode; heights which are not multiples of 0.01 mm being at least 0.02 mm away from all others), with Z set in mm by absolute or relative moves and G92, or in inches by absolute ones, in any interleaving with extrusion, travel and comments",
  "Tests count layers of a single file; boundaries depend on arbitrary interleavings of Z moves, hops, relative moves and extrusion.",
  [G], [("layer building", "GCode._preprocess (build_layers)")], state=[("all_layers, all_zs", "layers and printed heights", G)],
  observe=["gcode.all_layers", "layer.z", "gcode.all_zs"])
p("C05", "Editing a program in place keeps lines, layers and indexes in step",
  "After any sequence of appending a line, prepending lines to a layer and rewriting a layer, the list of lines is the concatenation of the layers, the index of each line gives its layer and its place in it, the length is the number of lines and the written program is those lines. Each operation changes exactly the targeted place: prepended lines come first in that layer in the given order, rewritten layers hold exactly the given lines, appended lines come last.",
  ["histories"], "every sequence of append (stored or not), prepend_to_layer and rewrite_layer on non-empty layers with any (blank or padded) command strings, starting from any program including the empty one",
  "Tests perform at most one prepend; index arrays are updated incrementally, so errors appear only after particular sequences.",
  [G], [("prepend_to_layer", G), ("rewrite_layer", G), ("append", G)],
  state=[("lines, all_layers, layer_idxs, line_idxs", "redundant views of the program", G)], observe=["lines, all_layers, idxs(i), len, write"])
p("C06", "The program summary (bounds, filament, layers) is computed from its moves",
  "Filament length is the highest extruded total reached (retractions and G92 never lose it), X/Y bounds are the extreme end points of extruding moves (of all moves when nothing is extruded), Z bounds go from 0 to the highest printed height, and width, depth, height are their differences. The number of layers is the number of printed heights.",
  ["programs"], "every program of moves, G92, G28, units and modes, whose printed heights are non-negative",
  "No test reads these values; they depend on running extrema over all modes and offsets.",
  [G], [("bounding box and totals", "GCode._preprocess")], observe=["xmin..zmax, width, depth, height, filament_length, layers_count", "python -m gcodeutils.gcoder FILE"])
p("C07", "Programs compare equal exactly when they have the same commands and coordinates",
  "Two programs are equal if and only if, skipping comment-only lines, they have the same number of lines and each pair has the same command and, on G lines, the same X, Y, Z, E, F, I, J words, values within 0.001. The comparison is symmetric, layers, comments and spacing never matter, a line missing at either end makes a difference, and diff returns nothing exactly when the programs are equal, otherwise it names the first pair of commands which differ and how many are before it, or the first command left over. How they were read (at once, deferred, from a stream, as light lines) or edited to the same text doesn't matter. A program equals nothing but a program.",
  ["inputs", "programs"], "every pair of programs whose corresponding values differ by less than 0.0005 or more than 0.002",
  "Tests compare four fixed pairs.",
  [G], [("PyLine.__eq__", G), ("GCode.__eq__ and diff", G)], observe=["==, !=, diff"])
p("C08", "Translation moves the whole path by the requested amount, whatever the modes",
  "Translating a program by (x, y) makes the head follow the original path shifted by exactly that amount: after each absolute move the named axes, and after each relative move with X or Y both axes, are at the original machine position plus the amount, for any later use of G90, G91, G92 and G28. Z, E, feedrate and the commands other than an inserted catching-up move are unchanged, and a zero amount changes no motion.",
  ["programs", "configurations"], "every program which selects G90 or G91 before its first move, in mm or inches, coordinates with up to 3 decimals, any amounts",
  "Tests translate two absolute programs; the shift must survive all interleavings of relative moves, origin changes and homing.",
  ["gcodeutils/filter/translate.py", "gcodeutils/gcode_mod.py"], [("GCodeXYTranslateFilter.opcode_filter", "gcodeutils/filter/translate.py")],
  state=[("translate_x/y, shift_x/y", "what is left to add, what the head already got", "gcodeutils/filter/translate.py")],
  observe=["written program executed by a reference printer"])
p("C09", "Rewriting a line changes only the coordinates concerned",
  "When a program is translated or converted to relative extrusion, each line keeps its command (except that M82 becomes a mere M83), every other word (known or unknown letter) with its value to the written precision, and its comments. Lines are neither dropped nor reordered, and in a program in inches the rewritten words are in inches.",
  ["inputs", "programs"], "every line shape: any words in any order, comments in both syntaxes, line numbers, units mm or inches, 5 decimals for E and 3 (5 in inches) for others",
  "Test programs carry no comments or extra words on rewritten lines and use mm only.",
  [G, "gcodeutils/filter/translate.py", "gcodeutils/filter/relative_extrusion.py"], [("unsplit", G)], observe=["written lines"])
p("C10", "Relative extrusion conversion keeps the filament of every move",
  "After conversion to relative extrusion each move pushes or retracts the same amount of filament as in the original program, its E word is that amount, and the program puts the printer in relative extrusion before any E word which needs it. Origins set by G92 E, existing M82, M83, G90, G91 and mixed modes are taken into account, and converting an already converted program changes nothing.",
  ["programs"], "every program in which all E moves extrude the same whether or not the firmware lets G90/G91 override M82/M83 (conventions differ between firmwares)",
  "Tests convert two programs; amounts depend on the full history of E, G92 and modes.",
  ["gcodeutils/filter/relative_extrusion.py", "gcodeutils/gcode_mod.py"], [("GCodeToRelativeExtrusionFilter.opcode_filter", "gcodeutils/filter/relative_extrusion.py")],
  state=[("current_extrusion_distance", "E coordinate of the original program", "gcodeutils/filter/relative_extrusion.py")],
  observe=["written program executed by reference printers of both conventions"])
p("C11", "Pausing at a layer inserts one pause exactly where that printed layer starts",
  "Asking for a pause at printed layer n (counted from 0 by increasing height) inserts exactly one M226 line, immediately before the first line of the first layer section which extrudes at that height, and changes nothing else. A number which is not a printed layer leaves the program unchanged, and several requested layers get one pause each.",
  ["programs", "configurations"], "every program as in C04 and every (set of) layer numbers, including Z hops, revisited heights, travel-only heights, negative and too large numbers",
  "The tests pause one regular program; hops, revisits and travel-only heights are untested.",
  ["gcodeutils/visit/pause_at_layer.py", "gcodeutils/visit/iterator.py", "gcodeutils/gcode_mod.py"], [("PauseAtLayer.did_visit_layer", "gcodeutils/visit/pause_at_layer.py")],
  observe=["written program", "gcode_mod -p"])
p("C12", "Visitors see every layer and line once, in order, with the right numbers",
  "Iterating with a visitor calls: start of layer, each of its lines, end of layer, for every layer in program order, each line exactly once. The information given carries consecutive line numbers over the program, consecutive layer indexes, whether the layer is at a printed height, and the rank of that height among printed heights (else the layer index), and a visitor which prepends lines at the end of a layer does not disturb the rest of the visit.",
  ["programs"], "every program as in C04, with any layer structure, and visitors which read or prepend",
  "One test visits one regular program and checks counts.",
  ["gcodeutils/visit/iterator.py", "gcodeutils/visit/visitor.py"], [("GCodeIterator.accept", "gcodeutils/visit/iterator.py")], observe=["visitor callbacks"])
p("C13", "Stretch only displaces loop points, by a bounded amount",
  "Stretching keeps the number and order of lines and leaves every line unchanged (up to comments) except linear absolute moves in X/Y inside loops (walls, skins or perimeters) as marked by the slicer; those keep command, Z and F words, move by at most edge width x stretch ratio of the kind of loop x strength, and scale their E by one minus the displacement in mm. With a null strength nothing moves, and filtering always terminates without error, even on malformed loops.",
  ["programs", "configurations"], "every Slic3r, Cura or Skeinforge style program, well-formed or not, with any strength and ratios",
  "The square tests only check that nothing is raised, on a single loop; one file is compared to a recording.",
  ["gcodeutils/stretch/stretch.py", "gcodeutils/gcode_stretch.py"], [("parse_line, get_stretched_line_from_index_location", "gcodeutils/stretch/stretch.py"), ("setup_filter", "gcodeutils/stretch/stretch.py")],
  observe=["written program"])
p("C14", "Stretch moves each loop point away from its neighbourhood by the documented law",
  "In a closed loop each point is moved by edge width x ratio x strength times the relative stretch: the sum (x 0.8, at most 1) of the unit-distance directions from the path points lying the stretch distance ahead and behind along the closed loop, limited perpendicularly to close neighbours by the cross limit. Holes thus grow and outer corners move outwards, independently of where the loop starts, omitted unchanged coordinates and units.",
  ["inputs", "configurations"], "every closed loop of distinct successive points at least as long as the stretch distance (in Skeinforge, with no travel between the end of the previous thread and the loop; in Cura, loops of one section separated by travels), any starting point, edge width, distances and strength, to a few micrometres",
  "The law is only compared to one recorded Skeinforge file; the wrap-around of loops in the other dialects is not checked at all.",
  ["gcodeutils/stretch/stretch.py"], [("get_relative_stretch, get_cross_limited_stretch, line iterators", "gcodeutils/stretch/stretch.py")], observe=["written coordinates"])
p("C15", "Each loop is stretched with the strength of its kind, for each slicer dialect",
  "The outer perimeter, inner perimeters and extra loops are each stretched with their own ratio: Slic3r, first external perimeter of a layer outer, next ones inner, other perimeters loop; Cura, WALL-OUTER outer, WALL-INNER inner, SKIN loop, any other type none; Skeinforge, edge outer, other edges inner, loop. The edge width comes from the slicer's own comment or profile, 0.4 mm when there is none, and the dialect is chosen from the presence of a Cura profile.",
  ["programs", "configurations"], "every sequence of marked loops, fills, travels and layers, and every edge width and ratios",
  "Tests have at most one loop per dialect and do not look at the result.",
  ["gcodeutils/stretch/stretch.py", "gcodeutils/gcode_stretch.py"], [("setup_filter, new_perimeter, set_edge_width, parse_cura_profile", "gcodeutils/stretch/stretch.py"), ("is_cura_gcode", "gcodeutils/gcode_stretch.py")], observe=["written coordinates"])
p("C16", "Generated arcs follow the segments they replace",
  "Each generated G2/G3 replaces a run of at least 8 consecutive straight absolute moves at constant Z and feedrate: it ends at the end point of the run, turns in the same direction within one turn, has a radius of at most 200 mm, and every replaced vertex is within the alignment error (15 um plus rounding) of one circle around the arc's centre, in order along it, each segment turning by the average of the run within 5 degrees. A full turn ends exactly at its start. No other motion is changed.",
  ["programs"], "every program of moves, arcs, travels, modes, origin changes, comments and units, including nearly circular, straight, zigzag, multi-turn, spiral and unevenly sampled paths; coordinates with up to 3 decimals in mm, 5 in inches",
  "The arc tests never run (their decorator discards them).",
  ["gcodeutils/filter/arc_optimizer.py"], [("queue_valid, get_circle, to_gcode", "gcodeutils/filter/arc_optimizer.py")], observe=["written program"])
p("C17", "Arc optimization loses nothing but the replaced segments",
  "Every line which is not part of a replaced run is written unchanged and in order; an arc extrudes what the run extruded up to the arc/chord length ratio (never retracting instead), each replaced segment extrudes, for its length, what the whole run does within 15%, later lines extrude and move as in the original program (in absolute mode the next one may make up for 1% of what the arc extruded), and the feedrate along and after the arc is that of the run. Optimizing never fails, whatever the program.",
  ["programs"], "as C16, in absolute and relative extrusion, with and without extrusion, G92 E at any value, both directions of rotation; programs which don't go from relative to absolute extrusion without setting the position of the extruder",
  "The arc tests never run; only one direction and mode is recorded in their reference files.",
  ["gcodeutils/filter/arc_optimizer.py", "gcodeutils/filter/filter.py", "gcodeutils/gcode_optimize_arcs.py"], [("opcode_filter queue", "gcodeutils/filter/arc_optimizer.py"), ("to_gcode extrusion correction", "gcodeutils/filter/arc_optimizer.py")], observe=["written program executed by a reference printer"])
p("C18", "Regular circular runs become arcs",
  "A run of at least 8 equal segments inscribed in a circle of radius 1 to 150 mm, within one turn, evenly extruded at constant feedrate and Z, which starts where the move of the previous line ends (not part of another arc) and is followed by a line which is not on that circle, is replaced by one arc command with the circle's centre, in either direction, for absolute and relative extrusion. Runs of fewer than 8 segments are left alone.",
  ["inputs", "configurations"], "every centre, radius, start angle, direction, segment count >= 8 and sweep from 30 degrees to one turn, with vertices written to 3 decimals, segments of at most 44 degrees and at least 0.2 mm long, and neighbouring moves which leave the circle by 0.5 mm at least, against its turn",
  "The arc tests never run.",
  ["gcodeutils/filter/arc_optimizer.py"], [("opcode_filter, get_circle_least_squares", "gcodeutils/filter/arc_optimizer.py")], observe=["written program"])
p("C19", "The temperature gradient only adds temperature commands between layers",
  "The program written with a temperature gradient is the original program, line for line, with added lines which are blank or M104 S<temperature with one decimal>, each placed before the first line of a layer and never two for one layer. No temperature below 150 or above 250 is ever written, and a program too low for a gradient is refused without touching its file.",
  ["programs", "configurations"], "every program as in C04, every start and end temperature, minimum height, number of steps, discrete or continuous",
  "No test covers this tool (it could not even be imported).",
  ["gcodeutils/gcode_tempcal.py", "cura_plugins/tempcal_plugin.py"], [("GCodeTempGradient.write, generate_temperature_gcode", "gcodeutils/gcode_tempcal.py")], observe=["written program"])
p("C20", "Temperatures follow the height from start to end temperature",
  "Layers at or below the minimum height get no temperature; from the first layer above it (start temperature) to the highest printed one (end temperature), the temperature in force at each layer is, in continuous mode, linear in height, and in discrete mode with n steps, start plus k n-ths of the range where k is the largest integer not above (n+1) times the height fraction, at most n. A command is written only when the temperature rounded to 0.1 degree changes, so temperatures never leave the requested range and are monotonic with height. Writing it again gives the same program.",
  ["programs", "configurations"], "as C19, within 150-250 degrees for both temperatures, Z given by moves",
  "No test covers this tool.",
  ["gcodeutils/gcode_tempcal.py"], [("get_temp_for_current_layer (step and continuous)", "gcodeutils/gcode_tempcal.py"), ("_parse_gcode bounds", "gcodeutils/gcode_tempcal.py")], observe=["written program"])
p("C21", "Command line tools are the composition of their documented steps",
  "gcode_mod applies translation, then relative extrusion, then pause, each only when asked for; gcode_stretch converts to relative extrusion then stretches with the given settings; gcode_optimize_arcs and gcode_tempcal apply their single step, and the Cura plugins do the same as the tools on a file in place. Reading from a file or standard input, and writing to a file, standard output or (arcs) in place give the same program, with nothing but the program on standard output.",
  ["configurations", "programs"], "every combination of options, input and output routes (to different files), over programs of all dialects",
  "No test runs a command line tool.",
  ["gcodeutils/gcode_mod.py", "gcodeutils/gcode_stretch.py", "gcodeutils/gcode_optimize_arcs.py", "gcodeutils/gcode_tempcal.py", "cura_plugins/stretch_plugin.py", "cura_plugins/tempcal_plugin.py"],
  [("main()", "each script")], observe=["process outputs"])
p("C22", "The estimated duration follows from the moves the printer makes",
  "A linear move lasts its X/Y travel (or else its Z travel, or else its filament) at its feedrate, reached at 1000 mm/s2 from the speed of the previous linear move, or from rest unless it goes forwards (acute angle) after it; a G4 lasts its P milliseconds and nothing else lasts. The duration of a layer is the sum over its lines, that of the program the sum over its layers, cut to whole seconds. How moves are expressed (absolute or relative, G92 origins, homing, units, feedrate given earlier) does not matter.",
  ["programs"], "every program without arcs nor null or negative feedrates once one was given (0.2 to 400 mm/s), coordinates with up to 3 decimals in mm or inches, consecutive oblique moves which aren't exactly at right angle",
  "No test reads a duration; it depends on the previous moves, the modes and the origins.",
  [G], [("duration estimation", "GCode._preprocess"), ("estimate_duration", "GCode.estimate_duration"), ("P", "find_specific_code")],
  observe=["gcode.duration, estimate_duration(), layer.duration", "python -m gcodeutils.gcoder FILE"])
p("C23", "A filtered program is what it writes, so that edits, filters and pauses chain",
  "Applying a filter (translation, relative extrusion, arcs, stretching or one derived from GCodeFilter) to a program object gives what a new filter gives for the text of that object read again, whatever edits (append, prepend_to_layer, rewrite_layer), filters and pauses were applied before, and whatever program that filter was used for before. Afterwards the lines, length, indexes, positions, layers, printed heights, summary and state of the object are those of its text read again, so that a pause or a temperature gradient applied next goes where it would in the text. A filter is given every line once, in order: for None or the line itself it is kept, and otherwise replaced by the line or lines which it returns, possibly none.",
  ["programs", "histories"], "every program of the other properties, any home position, any sequence of edits, filters and pauses, filters returning None, a line, or an iterable of lines for each line",
  "The tests apply one filter to a program which was just read and look at the text it writes, never at the object nor at a second step.",
  ["gcodeutils/filter/filter.py", G, "gcodeutils/stretch/stretch.py", "gcodeutils/visit/pause_at_layer.py"],
  [("GCodeFilter.filter, parse_layer", "gcodeutils/filter/filter.py"), ("GCode.reload", G), ("StretchFilter.filter", "gcodeutils/stretch/stretch.py"), ("PauseAtLayer", "gcodeutils/visit/pause_at_layer.py")],
  observe=["GCodeFilter.filter then write, lines, len, idxs, line.current_*, all_layers, all_zs, summary", "sequence of lines given to opcode_filter"])
if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P))
