From f3877ceafefafdc31be4cea9b0974db128484733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 01/50] fix: program equality and diff miss one line left over
 at the end of the longer program

---
 gcodeutils/gcoder.py | 37 ++++++++++++-------------------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 5041308..f641aee 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -24,6 +24,11 @@ from array import array
 
 import re
 
+try:
+    from itertools import zip_longest
+except ImportError:  # Python 2
+    from itertools import izip_longest as zip_longest
+
 gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
@@ -796,24 +801,16 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for line_number, (l1, l2) in enumerate(zip(meaningful_lines1, meaningful_lines2)):
+        for line_number, (l1, l2) in enumerate(zip_longest(meaningful_lines1, meaningful_lines2)):
+            if l2 is None:
+                return "Remaining line(s) for self: '{}'".format(l1)
+            if l1 is None:
+                return "Remaining line(s) for other: '{}'".format(l2)
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return "First difference after {} meaningful lines: '{}' vs '{}' ".format(line_number, l1.raw, l2.raw)
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            l1 = next(meaningful_lines1)
-            return "Remaining line(s) for self: '{}'".format(l1)
-        except StopIteration:
-            try:
-                l2 = next(meaningful_lines2)
-                return "Remaining line(s) for other: '{}'".format(l2)
-            except StopIteration:
-                pass
-
         return None
 
     def __eq__(self, other):
@@ -823,23 +820,13 @@ class GCode(object):
         meaningful_lines1 = self.comment_stripper_generator()
         meaningful_lines2 = other.comment_stripper_generator()
 
-        for l1, l2 in zip(meaningful_lines1, meaningful_lines2):
+        # zip_longest so that a line left over on either side counts as a difference
+        for l1, l2 in zip_longest(meaningful_lines1, meaningful_lines2):
             # checking the raw representation of lines is a bit naive
             # that will have to evolve as required
             if l1 != l2:
                 return False
 
-        # check that generators are empty
-        # that's probably more contrived than it should be
-        try:
-            next(meaningful_lines1)
-            return False
-        except StopIteration:
-            try:
-                next(meaningful_lines2)
-                return False
-            except StopIteration:
-                pass
         return True
 
     def comment_stripper_generator(self):
-- 
2.43.0


From f2ebd2f0efb8565b86f4f3f6682bc1490ea194de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 02/50] fix: GCode.append records a line index one past the
 appended line

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f641aee..b6935c4 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -401,7 +401,7 @@ class GCode(object):
             self.lines.append(gline)
             self.append_layer.append(gline)
             self.layer_idxs.append(self.append_layer_id)
-            self.line_idxs.append(len(self.append_layer))
+            self.line_idxs.append(len(self.append_layer) - 1)
         return gline
 
     def _preprocess(self, lines=None, build_layers=False,
-- 
2.43.0


From 68a54f7e89befe98af92aaf930c4a3f893411d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:34 +0000
Subject: [PATCH 03/50] fix: G28 naming some axes is tracked as homing all of
 them

---
 gcodeutils/gcoder.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index b6935c4..835091f 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -533,14 +533,16 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    home_all = not any([line.x, line.y, line.z])
-                    if home_all or line.x is not None:
+                    # an axis may be named with ("X0") or without ("X") a value
+                    homed = [bit[0] for bit in split_raw if bit[0] in ("x", "y", "z")]
+                    home_all = not homed
+                    if home_all or "x" in homed:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or line.y is not None:
+                    if home_all or "y" in homed:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or line.z is not None:
+                    if home_all or "z" in homed:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From b85c0320fdf47b144fd343996e985fcc08977915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 04/50] fix: extrusion after G92 E is measured from the wrong
 origin

---
 gcodeutils/filter/arc_optimizer.py | 7 +++++--
 gcodeutils/gcoder.py               | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 680682d..8c41283 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,13 +308,16 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
-            op1.e=self.queue[0].current_e+arc_extrusion_length
+            # current_e counts from the machine start: the words need the coordinate the program uses (G92 shifts it)
+            start_e = end_point.e - (end_point.current_e - self.queue[0].current_e)
+            op1.e = start_e + arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.command="G92"
-                op2.e = op2.current_e = end_point.current_e
+                op2.e = end_point.e
+                op2.current_e = end_point.current_e
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 835091f..f322fae 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -571,7 +571,7 @@ class GCode(object):
                         max_e = max(max_e, total_e)
                         cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
-                        offset_e = line.e #current_e - line.e
+                        offset_e = current_e - line.e
                 line.current_e = current_e
                 # # Create layers and perform global computations
                 if build_layers:
-- 
2.43.0


From 8f84a7215fcbe139f321ee8fa57b8af86c8390e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 05/50] fix: G92 without coordinates is ignored when tracking
 the position

---
 gcodeutils/gcoder.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f322fae..1c18115 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -547,6 +547,12 @@ class GCode(object):
                         current_z = self.home_z
 
                 elif line.command == "G92":
+                    if line.x is None and line.y is None and line.z is None and line.e is None:
+                        # without coordinates, all axes are set to 0
+                        offset_x = current_x
+                        offset_y = current_y
+                        offset_z = current_z
+                        offset_e = current_e
                     if line.x is not None: offset_x = current_x - line.x
                     if line.y is not None: offset_y = current_y - line.y
                     if line.z is not None: offset_z = current_z - line.z
-- 
2.43.0


From d540b24786a7b0cae848dbcd37d311a34a95b535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:10 +0000
Subject: [PATCH 06/50] fix: a move changing Z while extruding marks the
 previous height as printed

---
 gcodeutils/gcoder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 1c18115..d68b97b 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -575,7 +575,6 @@ class GCode(object):
                             total_e += new_e - current_e
                             current_e = new_e
                         max_e = max(max_e, total_e)
-                        cur_layer_has_extrusion |= line.extruding
                     elif line.command == "G92":
                         offset_e = current_e - line.e
                 line.current_e = current_e
@@ -716,6 +715,9 @@ class GCode(object):
                         prev_base_z = base_z
 
             if build_layers:
+                # a line changing Z belongs to the layer it starts
+                if line.is_move and line.extruding:
+                    cur_layer_has_extrusion = True
                 cur_lines.append(true_line)
                 layer_idxs.append(layer_id)
                 line_idxs.append(layer_line)
-- 
2.43.0


From 72db0efcfecf26fa03ae08b49dbaf8e72f3d724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 07/50] fix: reading a program fails on words without digits
 and on text starting with T

---
 gcodeutils/gcoder.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index d68b97b..cd54efe 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -127,7 +127,7 @@ LightLine = PyLightLine
 def find_specific_code(line, code):
     exp = specific_exp % code
     bits = [bit for bit in re.findall(exp, line.raw) if bit]
-    if not bits:
+    if not bits or not bits[0][1:].strip("+-."):
         return None
     else:
         return float(bits[0][1:])
@@ -185,7 +185,8 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
     unit_factor = 25.4 if imperial else 1
     for bit in split_raw:
         code = bit[0]
-        if code not in gcode_parsed_nonargs and bit[1]:
+        # a letter which isn't followed by any digit carries no value
+        if code not in gcode_parsed_nonargs and bit[1].strip("+-."):
             setattr(line, code, unit_factor * float(bit[1]))
 
 
@@ -504,7 +505,7 @@ class GCode(object):
                     relative_e = False
                 elif line.command == "M83":
                     relative_e = True
-                elif line.command[0] == "T":
+                elif line.command[0] == "T" and line.command[1:].isdigit():
                     current_tool = int(line.command[1:])
 
                 if line.command[0] == "G":
-- 
2.43.0


From 464bccf0651b3f22061aedfcae3e1ca855e495ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:28 +0000
Subject: [PATCH 08/50] fix: gcoder summary cannot open its file with current
 Python versions

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index cd54efe..f44c90e 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -859,7 +859,7 @@ def main():
 
     print("Line object size:", sys.getsizeof(Line("G0 X0")))
     print("Light line object size:", sys.getsizeof(LightLine("G0 X0")))
-    gcode = GCode(open(sys.argv[1], "rU"))
+    gcode = GCode(open(sys.argv[1], "r"))
 
     print("Dimensions:")
     xdims = (gcode.xmin, gcode.xmax, gcode.width)
-- 
2.43.0


From 2b9a386585d60d9704c4d80579805b399039ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 09/50] fix: rewriting a line drops its comment and the words
 which have no attribute

---
 gcodeutils/gcoder.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f44c90e..f7cb24d 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -33,6 +33,7 @@ gcode_parsed_args = ["x", "y", "e", "f", "z", "i", "j"]
 gcode_parsed_nonargs = ["g", "t", "m", "n"]
 to_parse = "".join(gcode_parsed_args + gcode_parsed_nonargs)
 gcode_exp = re.compile("\([^\(\)]*\)|^\(.*\)$|;.*|[/\*].*\n|([%s])([-+]?[0-9]*\.?[0-9]*)" % to_parse)
+gcode_word_or_comment_exp = re.compile(r"(\([^\(\)]*\)|;.*)|([a-zA-Z])[-+]?[0-9]*\.?[0-9]*")
 gcode_strip_comment_exp = re.compile("\([^\(\)]*\)|;.*|[/\*].*\n")
 m114_exp = re.compile("\([^\(\)]*\)|[/\*].*\n|([XYZ]):?([-+]?[0-9]*\.?[0-9]*)")
 specific_exp = "(?:\([^\(\)]*\))|(?:;.*)|(?:[/\*].*\n)|(%s[-+]?[0-9]*\.?[0-9]*)"
@@ -166,6 +167,23 @@ def split(line):
     return split_raw
 
 
+def unparsed_parts(raw):
+    """Return the words of a raw line which aren't parsed into a Line attribute, then its comments"""
+    words = []
+    comments = []
+    command_seen = False
+    for match in gcode_word_or_comment_exp.finditer(raw):
+        comment, letter = match.groups()
+        if comment:
+            comments.append(comment)
+        elif not command_seen:
+            # anything before the command is a line number
+            command_seen = letter not in "nN"
+        elif letter.lower() not in gcode_possible_arguments:
+            words.append(match.group())
+    return words + comments
+
+
 def unsplit(line):
     format = ""
     arg = []
@@ -173,7 +191,11 @@ def unsplit(line):
         if getattr(line, bit) is not None:
             format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
             arg += [bit.upper(), getattr(line, bit)]
-    line.raw = line.command + format.format(*arg)
+    parts = [line.command + format.format(*arg)]
+    if line.raw:
+        # words and comments which have no attribute to be rebuilt from are kept as they are
+        parts += unparsed_parts(line.raw)
+    line.raw = " ".join(parts)
 
 
 def parse_coordinates(line, split_raw, imperial=False, force=False):
-- 
2.43.0


From 106b1b0ae90cdabb7e9463b5576eb05114ccfcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:04 +0000
Subject: [PATCH 10/50] fix: lines rewritten in a G20 program hold millimetres

---
 gcodeutils/filter/arc_optimizer.py |  2 ++
 gcodeutils/gcoder.py               | 12 +++++++++---
 gcodeutils/stretch/stretch.py      |  3 ++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 8c41283..3834417 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -289,6 +289,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         error, circle = self.get_circle()
         extrusions = self.get_distances()
         op1 = Line()
+        op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         op1.x = round(circle.end.x, 3)
@@ -315,6 +316,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             rel = arc_extrusion_length/extrusions['total']['filament']
             if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
+                op2.imperial = end_point.imperial
                 op2.command="G92"
                 op2.e = end_point.e
                 op2.current_e = end_point.current_e
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index f7cb24d..c062b4a 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -51,7 +51,7 @@ GCODE_RELATIVE_EXTRUSION_COMMAND = 'M83'
 
 class PyLine(object):
     __slots__ = ('x', 'y', 'z', 'e', 'f', 'i', 'j',
-                 'raw', 'command', 'is_move',
+                 'raw', 'command', 'is_move', 'imperial',
                  'relative', 'relative_e',
                  'current_x', 'current_y', 'current_z', 'extruding',
                  'current_tool', 'current_f', 'current_e',
@@ -189,8 +189,13 @@ def unsplit(line):
     arg = []
     for bit in gcode_possible_arguments:
         if getattr(line, bit) is not None:
-            format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
-            arg += [bit.upper(), getattr(line, bit)]
+            if line.imperial:
+                # attributes are in mm, words are in inches
+                format += " {}{:.7f}" if bit == 'e' else " {}{:.5f}"
+                arg += [bit.upper(), getattr(line, bit) / 25.4]
+            else:
+                format += " {}{:.5f}" if bit == 'e' else " {}{:.3f}"
+                arg += [bit.upper(), getattr(line, bit)]
     parts = [line.command + format.format(*arg)]
     if line.raw:
         # words and comments which have no attribute to be rebuilt from are kept as they are
@@ -205,6 +210,7 @@ def parse_coordinates(line, split_raw, imperial=False, force=False):
     if not force and line.command[0] != "G":
         return
     unit_factor = 25.4 if imperial else 1
+    line.imperial = imperial
     for bit in split_raw:
         code = bit[0]
         # a letter which isn't followed by any digit carries no value
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2d5464e..43de48a 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -331,7 +331,7 @@ class StretchFilter:
             self.current_layer = current_layer[:]
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
-                parse_coordinates(gcode_line, split(gcode_line))
+                parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
@@ -428,6 +428,7 @@ class StretchFilter:
 
         result = Line()
         result.command = original_line.command
+        result.imperial = original_line.imperial
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-- 
2.43.0


From 9d50a3008c99235e1a7ce05127ce673b0951ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:16 +0000
Subject: [PATCH 11/50] fix: translation is lost or doubled by G92, G28 and
 relative moves

---
 gcodeutils/filter/translate.py | 68 +++++++++++++++++++++++-----------
 gcodeutils/gcoder.py           | 16 +++++---
 2 files changed, 56 insertions(+), 28 deletions(-)

diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 2e1ed0f..64ceec6 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -2,7 +2,7 @@ import logging
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import move_gcodes, split, unsplit, GCODE_ABSOLUTE_POSITIONING_COMMAND, \
-    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, Line, raw_to_line
+    GCODE_RELATIVE_POSITIONING_COMMAND, GCODE_SET_POSITION_COMMAND, GCODE_HOME_COMMAND, Line, raw_to_line, homed_axes
 
 __author__ = 'olivier'
 
@@ -11,15 +11,26 @@ class GCodeXYTranslateFilter(GCodeFilter):
     """filter translating moves in the X/Y plane"""
 
     def __init__(self, x=None, y=None, **kwargs):
-        self.translate_x = x or 0.
-        self.translate_y = y or 0.
+        self.amount_x = x or 0.
+        self.amount_y = y or 0.
 
-        self.first_move_after_home = False
+        # what is left to add to absolute coordinates
+        self.translate_x = self.amount_x
+        self.translate_y = self.amount_y
+
+        # how far the head is from where the original program would have put it
+        self.shift_x = 0.
+        self.shift_y = 0.
 
         self.absolute_distance_mode = None  # None if when it is unknown
 
-    def generate_translation(self):
-        return raw_to_line("G0 X%.4f Y%.4f" % (self.translate_x, self.translate_y))
+    def generate_translation(self, opcode):
+        translation = raw_to_line("G0")
+        translation.imperial = opcode.imperial
+        translation.x = self.amount_x - self.shift_x
+        translation.y = self.amount_y - self.shift_y
+        unsplit(translation)
+        return translation
 
     def opcode_filter(self, opcode):
         if opcode.command in move_gcodes:
@@ -30,14 +41,22 @@ class GCodeXYTranslateFilter(GCodeFilter):
 
             if not self.absolute_distance_mode:
 
-                # we're in relative mode, if the first move after a homing, translate quickly
-                if self.first_move_after_home:
-                    self.first_move_after_home = False
-                    return [self.generate_translation(), opcode]
+                # we're in relative mode, if nothing shifted the head since homing, translate quickly
+                if (opcode.x is not None or opcode.y is not None) and \
+                        (self.shift_x != self.amount_x or self.shift_y != self.amount_y):
+                    translation = self.generate_translation(opcode)
+                    self.shift_x = self.amount_x
+                    self.shift_y = self.amount_y
+                    return [translation, opcode]
 
                 return
 
             # at this point, we're an absolute move, we have to "hard patch" coordinate
+            if opcode.x is not None:
+                self.shift_x = self.amount_x
+            if opcode.y is not None:
+                self.shift_y = self.amount_y
+
             if opcode.x is not None and self.translate_x:
                 opcode.x += self.translate_x
                 unsplit(opcode)
@@ -56,25 +75,30 @@ class GCodeXYTranslateFilter(GCodeFilter):
             self.absolute_distance_mode = False
             return
 
+        if opcode.command == GCODE_HOME_COMMAND:
+            # the head and its coordinates are back to what the original program has
+            homed = homed_axes(split(opcode))
+            if "x" in homed:
+                self.translate_x = self.amount_x
+                self.shift_x = 0.
+            if "y" in homed:
+                self.translate_y = self.amount_y
+                self.shift_y = 0.
+            return
+
         if opcode.command == GCODE_SET_POSITION_COMMAND:
-            if opcode.x is None and opcode.y is None and opcode.z is None:
+            if opcode.x is None and opcode.y is None and opcode.z is None and opcode.e is None:
                 # no coordinate given is equivalent to all 0
-                opcode.x = - self.translate_x
-                opcode.y = - self.translate_y
-
-                # now, there is a new reference point, that we translated so there's nothing left to do until
-                # the end of the program
-                self.translate_x = self.translate_y = 0
-
-                unsplit(opcode)
-                return opcode
+                opcode.x = opcode.y = opcode.z = opcode.e = 0.
 
+            # now, there is a new reference point: it has to account for the translation unless the head has already
+            # been shifted, and there's nothing left to do until the next homing
             if opcode.x is not None:
-                opcode.x -= self.translate_x
+                opcode.x -= self.amount_x - self.shift_x
                 self.translate_x = 0
 
             if opcode.y is not None:
-                opcode.y -= self.translate_y
+                opcode.y -= self.amount_y - self.shift_y
                 self.translate_y = 0
 
             unsplit(opcode)
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index c062b4a..cedce85 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -41,6 +41,7 @@ move_gcodes = ["G0", "G1", "G2", "G3"]
 linear_move_gcodes = ["G0", "G1"]
 gcode_possible_arguments = ['x', 'y', 'z', 'e', 'f', 'i', 'j']
 
+GCODE_HOME_COMMAND = 'G28'
 GCODE_ABSOLUTE_POSITIONING_COMMAND = 'G90'
 GCODE_RELATIVE_POSITIONING_COMMAND = 'G91'
 GCODE_SET_POSITION_COMMAND = 'G92'
@@ -203,6 +204,11 @@ def unsplit(line):
     line.raw = " ".join(parts)
 
 
+def homed_axes(split_raw):
+    """Return the axes homed by a G28 line, which may be named with ("X0") or without ("X") a value"""
+    return [bit[0] for bit in split_raw if bit[0] in ("x", "y", "z")] or ["x", "y", "z"]
+
+
 def parse_coordinates(line, split_raw, imperial=False, force=False):
     # Not a G-line, we don't want to parse its arguments
     if line.command is None:
@@ -562,16 +568,14 @@ class GCode(object):
                     if z is not None: current_z = z
 
                 elif line.command == "G28":
-                    # an axis may be named with ("X0") or without ("X") a value
-                    homed = [bit[0] for bit in split_raw if bit[0] in ("x", "y", "z")]
-                    home_all = not homed
-                    if home_all or "x" in homed:
+                    homed = homed_axes(split_raw)
+                    if "x" in homed:
                         offset_x = 0
                         current_x = self.home_x
-                    if home_all or "y" in homed:
+                    if "y" in homed:
                         offset_y = 0
                         current_y = self.home_y
-                    if home_all or "z" in homed:
+                    if "z" in homed:
                         offset_z = 0
                         current_z = self.home_z
 
-- 
2.43.0


From 3d9ca920c44b10cfc6c45b0a70d7eeb1c25334c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 12/50] fix: relative extrusion conversion ignores G90/G91,
 mixed modes and programs which never select a mode

---
 gcodeutils/filter/relative_extrusion.py | 33 ++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index e083a50..5e20932 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -2,7 +2,7 @@ from decimal import Decimal
 
 from gcodeutils.filter.filter import GCodeFilter
 from gcodeutils.gcoder import GCODE_SET_POSITION_COMMAND, GCODE_RELATIVE_POSITIONING_COMMAND, move_gcodes, split, Line, \
-    GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
+    GCODE_ABSOLUTE_POSITIONING_COMMAND, GCODE_ABSOLUTE_EXTRUSION_COMMAND, \
     GCODE_RELATIVE_EXTRUSION_COMMAND, raw_to_line, unsplit
 
 __author__ = 'olivier'
@@ -13,15 +13,32 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
         self.relative_extrusion = False
         self.current_extrusion_distance = Decimal()
 
+        # relative positioning applies to the extruder too
+        self.relative_positioning = False
+
+        # False if the generated program may not be in relative extrusion (some firmwares leave it with G90)
+        self.output_relative_extrusion = False
+
     def opcode_filter(self, opcode):
         if opcode.command == GCODE_RELATIVE_EXTRUSION_COMMAND:
             self.relative_extrusion = True
+            self.output_relative_extrusion = True
             return
 
         if opcode.command == GCODE_ABSOLUTE_EXTRUSION_COMMAND:
             self.relative_extrusion = False
+            self.output_relative_extrusion = True
             return raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND)
 
+        if opcode.command == GCODE_ABSOLUTE_POSITIONING_COMMAND:
+            self.relative_positioning = False
+            self.output_relative_extrusion = False
+            return
+
+        if opcode.command == GCODE_RELATIVE_POSITIONING_COMMAND:
+            self.relative_positioning = True
+            return
+
         if opcode.command == GCODE_SET_POSITION_COMMAND:
 
             # when setting position, if E is set, use it, but if there is parameter, consider E=0
@@ -32,11 +49,21 @@ class GCodeToRelativeExtrusionFilter(GCodeFilter):
 
             return
 
-        if opcode.command in move_gcodes and not self.relative_extrusion and opcode.e is not None:
+        if opcode.command in move_gcodes and opcode.e is not None:
+            if self.relative_extrusion or self.relative_positioning:
+                self.current_extrusion_distance += Decimal(opcode.e)
+                return
+
             # we're extruding while in absolute extrusion mode, reduce by the amount extruded so far
             # and keep track of the current e for later reuse
+            result = [opcode]
+            if self.current_extrusion_distance and not self.output_relative_extrusion:
+                # the program doesn't select relative extrusion by itself
+                result.insert(0, raw_to_line(GCODE_RELATIVE_EXTRUSION_COMMAND))
+                self.output_relative_extrusion = True
+
             opcode.e, self.current_extrusion_distance = (
             opcode.e - float(self.current_extrusion_distance), Decimal(opcode.e))
             opcode.relative_e=True
             unsplit(opcode)
-            return opcode
+            return result
-- 
2.43.0


From c7b1e25170455f4455e9462f5f89a406228245bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 13/50] fix: layer iteration fails without height and mistakes
 a layer for an equal one

---
 gcodeutils/visit/iterator.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 78757ae..0202d71 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs]
+            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None]
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
@@ -46,8 +46,7 @@ class GCodeIterator(object):
         parsed_layer_number = 0
         parsed_line_number = 0
 
-        for parsed_layer in self.__gcode.all_layers:
-            layer_index = self.__gcode.all_layers.index(parsed_layer)
+        for layer_index, parsed_layer in enumerate(self.__gcode.all_layers):
             try:
                 layer_z = round(parsed_layer.z, self.__digits_of_precision)
                 layer_number = self.__all_zs.index(layer_z)
-- 
2.43.0


From bf72075405b4796a2858fc54170c5fa967401d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:58 +0000
Subject: [PATCH 14/50] fix: pause is inserted at Z hops and repeated when a
 height is revisited

---
 gcodeutils/visit/iterator.py       | 2 +-
 gcodeutils/visit/pause_at_layer.py | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/visit/iterator.py b/gcodeutils/visit/iterator.py
index 0202d71..78d71ec 100644
--- a/gcodeutils/visit/iterator.py
+++ b/gcodeutils/visit/iterator.py
@@ -35,7 +35,7 @@ class GCodeIterator(object):
         self.__digits_of_precision = digits_of_precision
         self.__logger = logging.getLogger(LOGGER_NAME)
         self.__all_zs = sorted(
-            [round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None]
+            set(round(z, self.__digits_of_precision) for z in self.__gcode.all_zs if z is not None)
         )
         self.__logger.debug("  all_zs: %s", self.__all_zs)
         self.__logger.debug("  %s layers: %s", PRINTED_LAYER_KIND, len(self.__all_zs))
diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index bd0993e..6f702f3 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -16,11 +16,17 @@ class PauseAtLayer(GCodeVisitor):
 
     def __init__(self, pause_layer_list):
         self.__pause_layer_list = pause_layer_list
+        self.__started_layers = set()
 
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
-        is_printed = gcode_iterator_info.is_printed
+        # a Z hop can reach the height of a layer without printing it, or come back to a layer already started
+        is_printed = gcode_iterator_info.is_printed and any(line.extruding for line in layer_as_pyline_list)
+        if not is_printed or gcode_iterator_info.layer_number in self.__started_layers:
+            return
+        self.__started_layers.add(gcode_iterator_info.layer_number)
+
         is_pause_layer = gcode_iterator_info.layer_number in self.__pause_layer_list
         should_pause = is_printed and is_pause_layer
         if should_pause:
-- 
2.43.0


From 85ced4703684b88132695fe49e923e402b905f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 15/50] fix: temperature gradient ignores its discrete steps,
 end temperature and minimum height

---
 gcodeutils/gcode_tempcal.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index a8cee66..8c746a7 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -10,7 +10,7 @@ import sys
 
 __author__ = 'Olivier Jolly <olivier@pcedev.com>'
 
-from gcoder import GCode  # pylint: disable=relative-import
+from gcodeutils.gcoder import GCode
 
 
 class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
@@ -57,8 +57,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
                 # Keep the lowest Z which is above the minimum height (used to keep the slicer first layers
                 # temperature for adhesion)
-                if self.zmin is None or (
-                                current_z is not None and self.min_z_change < current_z < self.zmin):
+                if current_z is not None and current_z > self.min_z_change and (
+                                self.zmin is None or current_z < self.zmin):
                     self.zmin = current_z
 
         # Make sure that the sliced model is high enough to be usable
@@ -134,11 +134,10 @@ class GCodeStepTempGradient(GCodeTempGradient):
         self.step_end_temp = self.end_temp + (self.end_temp - self.start_temp) / self.steps
         self.steps += 1
 
-        self.max_temp = max(self.end_temp, self.start_temp)
-
     def get_temp_for_current_layer(self):
-        progress = float(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps) / self.steps
-        return min(self.max_temp, self.start_temp + progress * (self.step_end_temp - self.start_temp))
+        # the last step, at the end temperature, includes zmax
+        step = min(int(((self.current_z - self.zmin) / (self.zmax - self.zmin)) * self.steps), self.steps - 1)
+        return self.start_temp + step / self.steps * (self.step_end_temp - self.start_temp)
 
 
 def main():
@@ -168,7 +167,7 @@ def main():
                                      help='Switch to a continuous gradient generation where temperature is recomputed '
                                           'for every layer. You may want this in the case of very precise and fast '
                                           'hotend. Defaults to discrete temperature gradient divided in X steps.')
-    temperature_control.add_argument('--steps', '-s', default=10,
+    temperature_control.add_argument('--steps', '-s', type=int, default=10,
                                      help='Number of steps used to create a discrete gradient when using the default '
                                           'gradient generation model. Defaults to %(default)s steps. This setting is '
                                           'not used when using the continuous gradient generation model.')
-- 
2.43.0


From 826bb823a0dded9b5798e17ca4e899ce7772074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:52 +0000
Subject: [PATCH 16/50] fix: temperature plugin empties the file when the
 gradient is refused

---
 cura_plugins/tempcal_plugin.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cura_plugins/tempcal_plugin.py b/cura_plugins/tempcal_plugin.py
index 3763db5..c89daac 100644
--- a/cura_plugins/tempcal_plugin.py
+++ b/cura_plugins/tempcal_plugin.py
@@ -10,6 +10,7 @@
 # hack for windows platform with a non system wide python so that you can
 # just copy gcodeutils into the plugins directory instead of installing it
 # no twinkles for you, ultimaker
+import io
 import sys
 sys.path.append('plugins')
 
@@ -19,6 +20,10 @@ from gcodeutils.gcoder import GCode
 with open(filename, 'r') as gcode_file:  # pylint: disable=undefined-variable
     gcode = GCode(gcode_file)  # pylint: disable=redefined-outer-name,invalid-name
 
+# the gradient may be refused, don't truncate the file before it has been created
+output = io.StringIO()
+GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
+                      steps=steps).write(output)
+
 with open(filename, 'w') as gcode_file:  # pylint: disable=undefined-variable
-    GCodeStepTempGradient(gcode=gcode, start_temp=start_temp, end_temp=end_temp, min_z_change=min_z_change,
-                          steps=steps).write(gcode_file)
+    gcode_file.write(output.getvalue())
-- 
2.43.0


From 6685bfba6eab005e980e2920448a291e532fc4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 17/50] fix: clockwise arcs retract the filament in absolute
 extrusion mode

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 3834417..9dd4dee 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -308,7 +308,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             # absolute mode: fall-back to the original length
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
-            arc_extrusion_length=sum(arc_lens)*extrusions['avg']['ratio']
+            arc_extrusion_length=abs(sum(arc_lens))*extrusions['avg']['ratio']
             # current_e counts from the machine start: the words need the coordinate the program uses (G92 shifts it)
             start_e = end_point.e - (end_point.current_e - self.queue[0].current_e)
             op1.e = start_e + arc_extrusion_length
-- 
2.43.0


From 390a5163339805f598e0f0de86895466eec7d328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:57 +0000
Subject: [PATCH 18/50] fix: arc optimizer fails on leading comments, straight
 diagonals and moves of the extruder alone

---
 gcodeutils/filter/arc_optimizer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 9dd4dee..0b612d9 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -147,7 +147,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             svuu += pt.y * pt.x * pt.x
         if suu < EPSILON or svv < EPSILON:
             return None
-        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / (((-(suv * suv)) / suu) + svv)
+        determinant = ((-(suv * suv)) / suu) + svv
+        if determinant < EPSILON:
+            # the points are on a line
+            return None
+        v = (((svvv + svuu) / 2) - ((suv / 2) * ((suuu + suvv) / suu))) / determinant
         u = (((suuu + suvv) / 2) - (v * suv)) / suu
         # calculate direction
         center = Point(x=u + xbar, y=v + ybar)
@@ -249,7 +253,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             prev = line
         extrusions['avg']['filament'] = extrusions['total']['filament'] / len(self.queue)
         extrusions['avg']['path'] = extrusions['total']['path'] / len(self.queue)
-        extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
+        if extrusions['total']['path'] < EPSILON:
+            # the extruder moves alone
+            extrusions['avg']['ratio'] = 0
+        else:
+            extrusions['avg']['ratio'] = extrusions['total']['filament'] / extrusions['total']['path']
         return extrusions
 
     def queue_valid(self):
@@ -338,7 +346,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :param opcode: the opcode
         :return: the resulting opcode or a list of resulting opcodes
         """
-        if opcode.command is None and len(self.queue) > 0:
+        if opcode.command is None and len(self.queue) == 0:
+            # nothing to wait for, and no position known to start an arc from
+            return
+        if opcode.command is None:
             opcode.current_x  =self.queue[-1].current_x
             opcode.current_y = self.queue[-1].current_y
             opcode.current_z = self.queue[-1].current_z
-- 
2.43.0


From 6b4f27f82ecc7bd19d3b6dead07a9adc511c42ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 19/50] fix: arcs, relative moves, comments and changes of
 height are replaced by an arc

---
 gcodeutils/filter/arc_optimizer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 0b612d9..e640381 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -11,7 +11,7 @@ import logging
 from math import sqrt, sin
 import cmath
 from gcodeutils.filter.filter import GCodeFilter
-from gcodeutils.gcoder import Line, move_gcodes, unsplit
+from gcodeutils.gcoder import Line, linear_move_gcodes, move_gcodes, unsplit
 
 __author__ = 'Eyck Jentzsch <eyck@jepemuc.de>'
 
@@ -266,9 +266,13 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         :return: a tuple consisting of the bool indication an erroneous circle and the estimated circle
         """
         # check from 1 as idx 0 indicates the move to the start point
+        # only straight moves to absolute coordinates are segments
+        if not all([line.command in linear_move_gcodes and not line.relative for line in self.queue[1:]]):
+            return True, None
         all_e = False if self.queue[1].e is None else True
         cur_f = self.queue[1].current_f
-        cur_z = self.queue[1].current_z
+        # the first segment starts from the height of idx 0
+        cur_z = self.queue[0].current_z
         valid_e = all([line.e is not None for line in self.queue[1:]]) if all_e else \
             not any([line.e is not None for line in self.queue[1:]])
         valid_f = all([line.current_f == cur_f for line in self.queue[1:]])
-- 
2.43.0


From 8d75fe3f08f58756b61ba1f14c444ff340dd6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 20/50] fix: arcs end at machine coordinates when G92 moved the
 origin

---
 gcodeutils/filter/arc_optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index e640381..e21a939 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -304,8 +304,9 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.imperial = end_point.imperial
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
-        op1.x = round(circle.end.x, 3)
-        op1.y = round(circle.end.y, 3)
+        # current_x and current_y count from the machine origin: the words need the coordinates the program uses
+        op1.x = round([line.x for line in self.queue[1:] if line.x is not None][-1], 3)
+        op1.y = round([line.y for line in self.queue[1:] if line.y is not None][-1], 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.relative_e:
-- 
2.43.0


From d9a53cbf7c6caae48048ea5f5c56290f53ab3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:14 +0000
Subject: [PATCH 21/50] fix: arc optimizer fails on arcs without extrusion and
 writes F0 when the feedrate isn't known

---
 gcodeutils/filter/arc_optimizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index e21a939..0b95ae4 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -299,7 +299,6 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         count = len(self.queue)
         end_point = self.queue[-1]
         error, circle = self.get_circle()
-        extrusions = self.get_distances()
         op1 = Line()
         op1.imperial = end_point.imperial
         result.append(op1)
@@ -309,7 +308,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         op1.y = round([line.y for line in self.queue[1:] if line.y is not None][-1], 3)
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
-        if end_point.relative_e:
+        if end_point.e is None:
+            # nothing is extruded along the arc
+            pass
+        elif end_point.relative_e:
+            extrusions = self.get_distances()
             # calculate extrusion correction
             # arc length   b = r·alpha (alpha in radian)
             # chord length s = 2·r·sin(alpha/2)
@@ -319,6 +322,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             op1.relative_e = True
         else:
             # absolute mode: fall-back to the original length
+            extrusions = self.get_distances()
             phase_diffs=self.get_phase_diffs(circle)
             arc_lens=[ alpha*circle.radius for alpha in phase_diffs]
             arc_extrusion_length=abs(sum(arc_lens))*extrusions['avg']['ratio']
@@ -336,7 +340,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 unsplit(op2)
                 op2.raw += "; generated as arc to path relation is %f" % rel
                 result.append(op2)
-        op1.f = end_point.current_f
+        # the feedrate is unknown (0) until a line sets it
+        op1.f = end_point.current_f or None
         unsplit(op1)
         op1.raw += "; generated from %s segments" % (count - 1)
         self.valid_circle = False
-- 
2.43.0


From b7a5d28d8229e35f5836caf99341ed29308cce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 22/50] fix: paths turning back or going more than once around
 a circle are replaced by an arc

---
 gcodeutils/filter/arc_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 0b95ae4..30d95b6 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -214,6 +214,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         radius_err = self.get_circle_radius_errors(circle)
         if any([error > ALIGNMENT_ERROR for error in radius_err]):
             return True, circle
+        # all points have to be visited in the same direction, within one turn
+        phase_diffs = self.get_phase_diffs(circle)
+        if not (all([diff > 0 for diff in phase_diffs]) or all([diff < 0 for diff in phase_diffs])) or \
+                abs(sum(phase_diffs)) > 2 * cmath.pi + EPSILON:
+            return True, circle
         angle_err = self.get_circle_angle_errors(circle)
         return any([error > PHASE_ERROR for error in angle_err]), circle
 
-- 
2.43.0


From 0f272b562fb33cebf873dae2caac0ba38eb5b1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:10 +0000
Subject: [PATCH 23/50] fix: stretch fails on Cura profiles with Python 3

---
 gcodeutils/stretch/stretch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 43de48a..eb4b4c2 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -626,7 +626,7 @@ class CuraStretchFilter(StretchFilter):
     EXTERNAL_PERIMETER = 1
     EXTRA_PERIMETER = 2
 
-    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:(.*)$')
+    CURA_PROFILE_REGEXP = re.compile(r';CURA_PROFILE_STRING:([A-Za-z0-9+/=]*)')
 
     def __init__(self, **kwargs):
         StretchFilter.__init__(self, **kwargs)
@@ -714,7 +714,7 @@ class CuraStretchFilter(StretchFilter):
             self.set_edge_width(0.4)
 
     def parse_cura_profile(self, cura_profile):
-        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).split('\f', 1)
+        profileOpts, alt = zlib.decompress(base64.b64decode(cura_profile)).decode('utf-8').split('\f', 1)
         for option in profileOpts.split('\b'):
             if len(option) > 0:
                 key, value = option.split('=', 1)
-- 
2.43.0


From b80714a29ae932d27d3756caadc7a9a4b543def4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 24/50] fix: stretched lines get a default or outdated feedrate

---
 gcodeutils/stretch/stretch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index eb4b4c2..7cfdf58 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -308,7 +308,6 @@ class StretchFilter:
     def __init__(self, **kwargs):
         self.edgeWidth = 0.4
         self.extruderActive = False
-        self.feedRateMinute = 959.0
         self.isLoop = False
         self.oldLocation = None
         self.gcode = None
@@ -387,7 +386,6 @@ class StretchFilter:
     def stretch_line(self, line):
         """Get stretched gcode line."""
         location = get_location_from_line(self.oldLocation, line)
-        self.feedRateMinute = line.f or self.feedRateMinute
         self.oldLocation = location
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
@@ -432,7 +430,7 @@ class StretchFilter:
         result.x = stretchedPoint.real
         result.y = stretchedPoint.imag
         result.z = original_line.z
-        result.f = self.feedRateMinute
+        result.f = original_line.f
 
         # TODO improve new extrusion length computation. It's clearly a very rough estimate
         if original_line.e is not None:
-- 
2.43.0


From baa1ef7b720721d5983489e316a972427e6645fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:33 +0000
Subject: [PATCH 25/50] fix: stretch writes its warnings into the program sent
 to standard output

---
 gcodeutils/stretch/stretch.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 7cfdf58..9fc50c4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -148,7 +148,7 @@ class LineIteratorForwardLegacy(object):
         for lineIndex in xrange(self.line_index - 1, 0, - 1):
             if StretchFilter.EXTRUSION_ON_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
     def index_in_valid_range(self):
@@ -200,7 +200,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -211,7 +211,7 @@ class LineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex + 1
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -230,7 +230,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         for lineIndex in xrange(self.line_index - 1, -1, - 1):
             if StretchFilter.LOOP_START_MARKER in self.lines[lineIndex].raw:
                 return lineIndex
-        print('This should never happen in stretch, no activate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no activate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -249,7 +249,7 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
@@ -272,7 +272,7 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        print('This should never happen in stretch, no deactivate command was found for this thread.')
+        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
         raise StopIteration("You've reached the end of the line.")
 
 
-- 
2.43.0


From 56c6cfb6d1709539fdc79b5a538860bbac6cdaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 26/50] fix: Cura supports and skirts printed after a wall are
 stretched like this wall

---
 gcodeutils/stretch/stretch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 9fc50c4..fdb11a0 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -695,7 +695,7 @@ class CuraStretchFilter(StretchFilter):
                     self.stop_loop(line)
                     next_line_marker = (False, False)
 
-                elif 'TYPE:FILL' in line.raw:
+                elif 'TYPE:' in line.raw:
                     self.stop_loop(line)
 
                 # end loop if we reach the end of the current layer
-- 
2.43.0


From f22eaa0768f63a54b3e818957e49c4be6e0f469a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:35 +0000
Subject: [PATCH 27/50] fix: moves following a loop left open at the end of a
 layer are stretched

---
 gcodeutils/stretch/stretch.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index fdb11a0..1f83f7b 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -328,6 +328,7 @@ class StretchFilter:
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
+            self.start_layer()
             for self.line_number_in_layer, line in enumerate(self.current_layer):
                 gcode_line = self.parse_line(line)
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
@@ -469,6 +470,10 @@ class StretchFilter:
         self.crossLimitDistanceFraction = self.crossLimitDistance / 3
         self.crossLimitDistanceRemainder = self.crossLimitDistance - self.crossLimitDistanceFraction
 
+    def start_layer(self):
+        """Called before the lines of a layer are parsed"""
+        pass
+
     def parse_line(self, line):
         """Parse a gcode line and add it to the stretch skein."""
 
@@ -529,6 +534,10 @@ class Slic3rStretchFilter(StretchFilter):
         self.next_external_perimeter_is_outer = None
         self.current_type_line = None
 
+    def start_layer(self):
+        # a loop which isn't finished doesn't go on in the next layer
+        self.set_stretch_to_path()
+
     def new_perimeter(self, line, external=False):
 
         if external:
@@ -632,6 +641,10 @@ class CuraStretchFilter(StretchFilter):
         self.line_forward_iterator = CuraLineIteratorForward
         self.line_backward_iterator = CuraLineIteratorBackward
 
+    def start_layer(self):
+        # a loop which isn't finished doesn't go on in the next layer
+        self.set_stretch_to_path()
+
     def new_perimeter(self, line, external=False, outer=False):
 
         if external:
-- 
2.43.0


From 9e60250660578c6899bd992ec71199219467e9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 28/50] fix: stretch fails or never ends on loops which aren't
 closed

---
 gcodeutils/stretch/stretch.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 1f83f7b..cbfe5e4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -132,7 +132,7 @@ class LineIteratorForwardLegacy(object):
     def __init__(self, line_index, lines):
         self.first_visited_index = None
         self.line_index = line_index
-        self.first_visited_index = None
+        self.visited_count = 0
         self.lines = lines
         self.increment = 1
         self.stop_on_extrusion_off = True
@@ -161,7 +161,9 @@ class LineIteratorForwardLegacy(object):
 
         while self.index_in_valid_range():
 
-            if self.line_index == self.first_visited_index:
+            # a malformed loop may never come back to its first visited index
+            self.visited_count += 1
+            if self.line_index == self.first_visited_index or self.visited_count > 2 * len(self.lines):
                 self.logger.debug("infinite looping detected")
                 raise StopIteration("You've reached the end of the line.")
             if self.first_visited_index is None:
@@ -221,7 +223,7 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
         self.stop_on_extrusion_off = False
 
     def index_setup(self):
-        if StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
+        if self.line_index >= len(self.lines) or StretchFilter.LOOP_STOP_MARKER in self.lines[self.line_index].raw:
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -315,7 +317,8 @@ class StretchFilter:
         self.line_number_in_layer = 0
         self.stretchRepository = StretchRepository(**kwargs)
 
-        self.thread_maximum_absolute_stretch = 0
+        # used until another edge width is found
+        self.set_edge_width(self.edgeWidth)
 
         self.line_forward_iterator = LineIteratorForwardLegacy
         self.line_backward_iterator = LineIteratorBackwardLegacy
-- 
2.43.0


From aeede7b88aba546483478a0c8474fe5877761e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:15 +0000
Subject: [PATCH 29/50] fix: stretch misplaces points whose line omits an
 unchanged coordinate

---
 gcodeutils/stretch/stretch.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index cbfe5e4..2cf093d 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -94,7 +94,8 @@ import zlib
 
 import re
 
-from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes
+from gcodeutils.gcoder import split, Line, parse_coordinates, unsplit, linear_move_gcodes, move_gcodes, homed_axes, \
+    GCODE_HOME_COMMAND, GCODE_SET_POSITION_COMMAND
 from .vector3 import Vector3
 
 __author__ = 'Enrique Perez (perez_enrique@yahoo.com)'
@@ -311,7 +312,7 @@ class StretchFilter:
         self.edgeWidth = 0.4
         self.extruderActive = False
         self.isLoop = False
-        self.oldLocation = None
+        self.locations = {}
         self.gcode = None
         self.current_layer = None
         self.line_number_in_layer = 0
@@ -328,6 +329,7 @@ class StretchFilter:
         self.gcode = gcode
 
         self.setup_filter()
+        self.locate_lines()
 
         for self.current_layer_index, current_layer in enumerate(self.gcode.all_layers):
             self.current_layer = current_layer[:]
@@ -337,13 +339,31 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+    def locate_lines(self):
+        """Find the location reached by each line, as moves omit the coordinates which don't change."""
+        self.locations = {}
+        location = Vector3()
+        for layer in self.gcode.all_layers:
+            for line in layer:
+                if line.command == GCODE_HOME_COMMAND:
+                    homed = homed_axes(split(line))
+                    location = Vector3(*[0. if axis in homed else getattr(location, axis) for axis in "xyz"])
+                elif line.command == GCODE_SET_POSITION_COMMAND and all(
+                        getattr(line, axis) is None for axis in "xyze"):
+                    location = Vector3()
+                elif line.command in move_gcodes and line.relative:
+                    location = location + get_location_from_line(None, line)
+                elif line.command in move_gcodes or line.command == GCODE_SET_POSITION_COMMAND:
+                    location = get_location_from_line(location, line)
+                self.locations[id(line)] = location
+
     def get_cross_limited_stretch(self, crossLimitedStretch, crossLineIterator, locationComplex):
         """Get cross limited relative stretch for a location."""
         try:
             line = crossLineIterator.get_next()
         except StopIteration:
             return crossLimitedStretch
-        pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+        pointComplex = self.locations[id(line)].dropAxis()
         pointMinusLocation = locationComplex - pointComplex
         pointMinusLocationLength = abs(pointMinusLocation)
         if pointMinusLocationLength <= self.crossLimitDistanceFraction:
@@ -372,7 +392,7 @@ class StretchFilter:
                 if locationMinusPointLength > 0.0:
                     return locationMinusPoint / locationMinusPointLength
                 return complex()
-            pointComplex = get_location_from_line(self.oldLocation, line).dropAxis()
+            pointComplex = self.locations[id(line)].dropAxis()
             locationMinusPoint = lastLocationComplex - pointComplex
             locationMinusPointLength = abs(locationMinusPoint)
             totalLength += locationMinusPointLength
@@ -389,8 +409,7 @@ class StretchFilter:
 
     def stretch_line(self, line):
         """Get stretched gcode line."""
-        location = get_location_from_line(self.oldLocation, line)
-        self.oldLocation = location
+        location = self.locations[id(line)]
 
         # if thread_maximum_absolute_stretch is set (ie within a loop) and we're extruding or after to do so,
         # adjust the point location to account for stretching
@@ -495,7 +514,8 @@ class StretchFilter:
             self.set_stretch_to_path()
 
         # handle move command if in loop
-        if line.command in linear_move_gcodes and self.isLoop and (line.x is not None or line.y is not None):
+        if line.command in linear_move_gcodes and self.isLoop and not line.relative and (
+                line.x is not None or line.y is not None):
             return self.stretch_line(line)
 
         return line
-- 
2.43.0


From 690b28df98c993eafcfe5a9979d3561cbb1bc7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 30/50] fix: commands following a comment on the same line are
 ignored

---
 gcodeutils/gcoder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index cedce85..34fe812 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -151,6 +151,9 @@ def raw_to_line(raw):
 
 def split(line):
     split_raw = gcode_exp.findall(line.raw.lower())
+    if any(bit[0] not in ("", "n") for bit in split_raw):
+        # comments are matched without a letter: skip them, they can come before the command
+        split_raw = [bit for bit in split_raw if bit[0]]
     if split_raw and split_raw[0][0] == "n":
         del split_raw[0]
     if not split_raw:
-- 
2.43.0


From b2d9fa53f5439dee04ec0622bfd653e1d9ada79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 31/50] fix: relative Z moves coming back to a height count it
 as another layer

---
 gcodeutils/gcoder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 34fe812..cfb1309 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -707,7 +707,8 @@ class GCode(object):
                             cur_z = line.z
                         elif line.is_move:
                             if line.relative and cur_z is not None:
-                                cur_z += line.z
+                                # relative moves must come back to the same height
+                                cur_z = round(cur_z + line.z, 5)
                             else:
                                 cur_z = line.z
 
-- 
2.43.0


From c04e84d5a3eace8c287fd609d2592ec363ecaf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:01 +0000
Subject: [PATCH 32/50] fix: reading a program fails on opposite feedrates and
 on durations which make no sense

---
 gcodeutils/gcoder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index cfb1309..72c9ddf 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -680,6 +680,9 @@ class GCode(object):
                             if distance <= currenttravel and lastf + f != 0 and f != 0:
                                 moveduration = 2 * distance / (lastf + f)  # This is distance / mean(lastf, f)
                                 moveduration += (currenttravel - distance) / f
+                            elif lastf + f == 0:
+                                # opposite feedrates
+                                moveduration = 0.
                             else:
                                 moveduration = 2 * currenttravel / (lastf + f)  # This is currenttravel / mean(lastf, f)
                                 # FIXME: probably a little bit optimistic, but probably a much better estimate than the previous one:
@@ -826,7 +829,11 @@ class GCode(object):
             self.height = self.zmax - self.zmin
 
             # Finalize duration
-            totaltime = datetime.timedelta(seconds=int(totalduration))
+            try:
+                totaltime = datetime.timedelta(seconds=int(totalduration))
+            except (OverflowError, ValueError):
+                # coordinates or waits which make no sense
+                totaltime = datetime.timedelta.max
             self.duration = totaltime
 
     def idxs(self, i):
-- 
2.43.0


From 5b2fb1235db0834058d789f89e86020d964484b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 33/50] fix: Slic3r loops don't wrap around when they are
 followed by another loop, a retraction or the end of the layer

The iterators looking for neighbour points continued into other loops, or stopped at the end of the layer.
---
 gcodeutils/stretch/stretch.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 2cf093d..0e798a1 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -158,9 +158,11 @@ class LineIteratorForwardLegacy(object):
     def get_next(self):
         """Get next line going backward or raise exception."""
 
-        self.index_setup()
+        while True:
 
-        while self.index_in_valid_range():
+            self.index_setup()
+            if not self.index_in_valid_range():
+                break
 
             # a malformed loop may never come back to its first visited index
             self.visited_count += 1
@@ -192,7 +194,7 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
         self.increment = -1
 
     def index_setup(self):
-        if self.line_index < 1:
+        if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
@@ -208,6 +210,10 @@ class LineIteratorBackwardLegacy(LineIteratorForwardLegacy):
 
 
 class LineIteratorForward(LineIteratorForwardLegacy):
+    def index_setup(self):
+        if self.line_index >= len(self.lines):  # loops may go on until the end of the layer
+            self.line_index = self.reset_index_on_limit()
+
     def reset_index_on_limit(self):
         """Get index just after the activate command."""
         self.logger.debug("reset index forward (modern)")
@@ -238,6 +244,10 @@ class CuraLineIteratorForward(LineIteratorForwardLegacy):
 
 
 class LineIteratorBackward(LineIteratorBackwardLegacy):
+    def __init__(self, line_index, lines):
+        super(LineIteratorBackward, self).__init__(line_index, lines)
+        self.stop_on_extrusion_off = False
+
     def index_setup(self):
         if self.line_index < 0:
             self.line_index = self.reset_index_on_limit()
@@ -249,11 +259,11 @@ class LineIteratorBackward(LineIteratorBackwardLegacy):
 
         self.logger.debug("reset index backward (modern)")
 
-        for lineIndex in xrange(self.line_index + 1, len(self.lines)):
+        # the line starting the loop may also deactivate the extrusion of the previous loop
+        for lineIndex in xrange(self.line_index + 2, len(self.lines)):
             if StretchFilter.EXTRUSION_OFF_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 2
-        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        return len(self.lines) - 2
 
 
 class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
@@ -634,6 +644,9 @@ class Slic3rStretchFilter(StretchFilter):
                     if self.current_type_line in (self.EXTRA_PERIMETER, self.EXTERNAL_PERIMETER):
                         logging.debug("found end of loop")
                         line.raw += " ; " + StretchFilter.LOOP_STOP_MARKER
+                        if extruding:
+                            extruding = False
+                            line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
                     self.current_type_line = self.UNKNOWN
 
-- 
2.43.0


From 1d7041076b15e5530aa49f55d477000c5d37fc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 34/50] fix: Cura loops go over travels, into sections of other
 types, and lose the last line of the layer

A section may hold several loops, separated by travels: each of them is now stretched on its own, whatever line ends it.
---
 gcodeutils/stretch/stretch.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 0e798a1..0658ac4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -278,15 +278,14 @@ class CuraLineIteratorBackward(LineIteratorBackwardLegacy):
             self.line_index = self.reset_index_on_limit()
 
     def reset_index_on_limit(self):
-        """Get index two lines before the deactivate command."""
+        """Get index just before the end of the loop."""
 
         self.logger.debug("reset index backward (modern)")
 
         for lineIndex in xrange(self.line_index + 1, len(self.lines)):
             if StretchFilter.LOOP_STOP_MARKER in self.lines[lineIndex].raw:
                 return lineIndex - 1
-        logging.warning('This should never happen in stretch, no deactivate command was found for this thread.')
-        raise StopIteration("You've reached the end of the line.")
+        return len(self.lines) - 1
 
 
 class StretchRepository:
@@ -714,9 +713,10 @@ class CuraStretchFilter(StretchFilter):
 
         for self.current_layer in self.gcode.all_layers:
             self.current_type_line = self.UNKNOWN
+            loop_marker = None
             next_line_marker = None
 
-            for line_idx, line in enumerate(self.current_layer):
+            for line in self.current_layer:
 
                 # checking extrusion
                 if not extruding and line.command in linear_move_gcodes and line.e is not None:
@@ -727,8 +727,14 @@ class CuraStretchFilter(StretchFilter):
                     extruding = False
                     line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
 
-                if next_line_marker is not None:
+                if line.command in linear_move_gcodes and line.e is None and (line.x is not None or line.y is not None):
+                    # a travel goes from a loop to the next one of the same type
+                    self.stop_loop(line)
+                    next_line_marker = next_line_marker or loop_marker
+
+                elif next_line_marker is not None and 'TYPE:' not in line.raw:
                     self.new_perimeter(line, *next_line_marker)
+                    loop_marker = next_line_marker
                     next_line_marker = None
 
                 # checking perimeter type
@@ -746,10 +752,7 @@ class CuraStretchFilter(StretchFilter):
 
                 elif 'TYPE:' in line.raw:
                     self.stop_loop(line)
-
-                # end loop if we reach the end of the current layer
-                if line_idx == len(self.current_layer) - 1:
-                    self.stop_loop(line)
+                    loop_marker = next_line_marker = None
 
                 # checking for edge width
                 match = self.CURA_PROFILE_REGEXP.match(line.raw)
-- 
2.43.0


From a1db719738222aa10ea4296efe73ab65e3840788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 35/50] fix: arcs of programs in inches end at a point rounded
 in mm, so that full circles may collapse

---
 gcodeutils/filter/arc_optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 30d95b6..9c4253e 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -309,8 +309,8 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         result.append(op1)
         op1.command = "G3" if circle.direction >0 else "G2" # G2 is CW, G3 CCW
         # current_x and current_y count from the machine origin: the words need the coordinates the program uses
-        op1.x = round([line.x for line in self.queue[1:] if line.x is not None][-1], 3)
-        op1.y = round([line.y for line in self.queue[1:] if line.y is not None][-1], 3)
+        op1.x = [line.x for line in self.queue[1:] if line.x is not None][-1]
+        op1.y = [line.y for line in self.queue[1:] if line.y is not None][-1]
         op1.i = round(circle.center.x - circle.start.x, 3)
         op1.j = round(circle.center.y - circle.start.y, 3)
         if end_point.e is None:
-- 
2.43.0


From c21b6f2719703c3edae7ca42668508f002ab0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:06 +0000
Subject: [PATCH 36/50] fix: the extruder position isn't corrected after arcs
 which are shorter than their segments

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 9c4253e..c75cce3 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -336,7 +336,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
             op1.e = start_e + arc_extrusion_length
             op1.relative_e=False
             rel = arc_extrusion_length/extrusions['total']['filament']
-            if (rel - 1) > EXTRUSION_CORRECTION_LIMIT:
+            if abs(rel - 1) > EXTRUSION_CORRECTION_LIMIT:
                 op2= Line()
                 op2.imperial = end_point.imperial
                 op2.command="G92"
-- 
2.43.0


From 7800490dd606a087e88ded7b5f4fe781de69c3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:10 +0000
Subject: [PATCH 37/50] fix: the highest layer reached by relative moves misses
 the end temperature

---
 gcodeutils/gcode_tempcal.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 8c746a7..4764696 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -44,13 +44,19 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
 
         return ""
 
+    @staticmethod
+    def _get_layer_z(layer):
+        """return the altitude of a layer, without the rounding errors left by relative moves"""
+        current_z = layer[0].current_z
+        return round(current_z, 5) if current_z is not None else None
+
     def _parse_gcode(self):
         """parse gcode to detect Z bounds"""
         for layer_idx, layer in enumerate(self.gcode.all_layers):
 
             # don't parse layer without any instruction
             if layer:
-                current_z = layer[0].current_z
+                current_z = self._get_layer_z(layer)
 
                 if current_z is not None:
                     logging.debug("layer #%d altitude is %.2fmm", layer_idx, current_z)
@@ -83,7 +89,7 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
         for layer_idx, layer in enumerate(self.gcode.all_layers):
 
             if layer:
-                self.current_z = layer[0].current_z
+                self.current_z = self._get_layer_z(layer)
 
                 if self.current_z and self.zmin <= self.current_z <= self.zmax:
 
-- 
2.43.0


From 05bddac9a101738cf074e8edae318ef638260d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 38/50] fix: Slic3r loops followed by another loop without a
 travel are stretched according to points of this loop

---
 gcodeutils/stretch/stretch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 0658ac4..5dbefe4 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -572,6 +572,10 @@ class Slic3rStretchFilter(StretchFilter):
 
     def new_perimeter(self, line, external=False):
 
+        if self.current_type_line != self.UNKNOWN and line.e is not None:
+            # the previous loop ends even when the extrusion goes on
+            line.raw += " ; " + StretchFilter.EXTRUSION_OFF_MARKER
+
         if external:
             if self.next_external_perimeter_is_outer:
                 logging.debug("found external perimeter outer")
-- 
2.43.0


From 9aad4a24355b7a4ad24b31db4d5aa4b0d342f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:21 +0000
Subject: [PATCH 39/50] fix: durations of waits in lower case are ignored

---
 gcodeutils/gcoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index 72c9ddf..ca8d395 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -128,7 +128,7 @@ LightLine = PyLightLine
 
 def find_specific_code(line, code):
     exp = specific_exp % code
-    bits = [bit for bit in re.findall(exp, line.raw) if bit]
+    bits = [bit for bit in re.findall(exp, line.raw, re.IGNORECASE) if bit]
     if not bits or not bits[0][1:].strip("+-."):
         return None
     else:
-- 
2.43.0


From acaa14d0b87ae1d49b229ebccb503743ebe5969b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 40/50] fix: durations ignore relative moves, G92 and G28, and
 layers last as long as the lines of another one

---
 gcodeutils/gcoder.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index ca8d395..bbb65b0 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -488,10 +488,10 @@ class GCode(object):
             # get device caps from firmware: max speed, acceleration/axis
             # (including extruder)
             # calculate the maximum move duration accounting for above ;)
-            lastx = lasty = lastz = laste = lastf = 0.0
+            lastf = 0.0
             lastdx = 0
             lastdy = 0
-            x = y = e = f = 0.0
+            f = 0.0
             currenttravel = 0.0
             moveduration = 0.0
             totalduration = 0.0
@@ -523,6 +523,7 @@ class GCode(object):
             line = get_line(true_line)
             split_raw = split(line)
             if line.command:
+                last_x, last_y, last_z, last_e = current_x, current_y, current_z, current_e
                 # Update properties
                 if line.is_move:
                     line.relative = relative
@@ -634,13 +635,10 @@ class GCode(object):
                                 ymax = max(ymax, line.current_y)
 
                     # Compute duration
+                    moveduration = 0.0
                     if line.command == "G0" or line.command == "G1":
-                        x = line.x if line.x is not None else lastx
-                        y = line.y if line.y is not None else lasty
-                        z = line.z if line.z is not None else lastz
-                        e = line.e if line.e is not None else laste
                         # mm/s vs mm/m => divide by 60
-                        f = line.f / 60.0 if line.f is not None else lastf
+                        f = current_f / 60.0
 
                         # given last feedrate and current feedrate calculate the
                         # distance needed to achieve current feedrate.
@@ -657,17 +655,18 @@ class GCode(object):
                         # The following code tries to fix it by forcing a full
                         # reacceleration if this move is in the opposite direction
                         # of the previous one
-                        dx = x - lastx
-                        dy = y - lasty
+                        # (moves of the machine, whatever the modes and origins, without rounding errors)
+                        dx = round(current_x - last_x, 6)
+                        dy = round(current_y - last_y, 6)
                         if dx * lastdx + dy * lastdy <= 0:
                             lastf = 0
 
                         currenttravel = math.hypot(dx, dy)
                         if currenttravel == 0:
                             if line.z is not None:
-                                currenttravel = abs(line.z) if line.relative else abs(line.z - lastz)
+                                currenttravel = abs(current_z - last_z)
                             elif line.e is not None:
-                                currenttravel = abs(line.e) if line.relative_e else abs(line.e - laste)
+                                currenttravel = abs(current_e - last_e)
                         # Feedrate hasn't changed, no acceleration/decceleration planned
                         if f == lastf:
                             moveduration = currenttravel / f if f != 0 else 0.
@@ -693,16 +692,10 @@ class GCode(object):
 
                         totalduration += moveduration
 
-                        lastx = x
-                        lasty = y
-                        lastz = z
-                        laste = e
                         lastf = f
                     elif line.command == "G4":
-                        moveduration = P(line)
-                        if moveduration:
-                            moveduration /= 1000.0
-                            totalduration += moveduration
+                        moveduration = (P(line) or 0.0) / 1000.0
+                        totalduration += moveduration
 
                     # FIXME : looks like this needs to be tested with "lift Z on move"
                     if line.z is not None:
@@ -739,8 +732,9 @@ class GCode(object):
 
                         if base_z != prev_base_z:
                             new_layer = Layer(cur_lines, base_z)
-                            new_layer.duration = totalduration - layerbeginduration
-                            layerbeginduration = totalduration
+                            # the line changing Z belongs to the next layer
+                            new_layer.duration = totalduration - moveduration - layerbeginduration
+                            layerbeginduration = totalduration - moveduration
                             all_layers.append(new_layer)
                             if cur_layer_has_extrusion and prev_z not in all_zs:
                                 all_zs.add(prev_z)
-- 
2.43.0


From b1171e06eb0ea21c14835d474fb6df1702a3ae9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 41/50] fix: layers which start with an inserted line have no
 temperature

---
 gcodeutils/gcode_tempcal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index 4764696..df8ced1 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -47,7 +47,8 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
     @staticmethod
     def _get_layer_z(layer):
         """return the altitude of a layer, without the rounding errors left by relative moves"""
-        current_z = layer[0].current_z
+        # lines inserted in the layer (such as a pause) have no altitude
+        current_z = next((line.current_z for line in layer if line.current_z is not None), None)
         return round(current_z, 5) if current_z is not None else None
 
     def _parse_gcode(self):
-- 
2.43.0


From f30ce99fcf6db3ec9d589797dcdbad91eaeeb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:37 +0000
Subject: [PATCH 42/50] fix: a filtered program keeps the lines, indexes,
 positions and layers it had before the filter

---
 gcodeutils/filter/filter.py   | 2 ++
 gcodeutils/gcoder.py          | 5 +++++
 gcodeutils/stretch/stretch.py | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/gcodeutils/filter/filter.py b/gcodeutils/filter/filter.py
index b388831..faaab83 100644
--- a/gcodeutils/filter/filter.py
+++ b/gcodeutils/filter/filter.py
@@ -9,6 +9,8 @@ class GCodeFilter(object):
 
     def filter(self, gcode):
         self.parse_gcode(gcode, self.opcode_filter)
+        # the lines, indexes, positions and layers are those of the filtered program
+        gcode.reload()
 
     def parse_gcode(self, gcode, opcode_filter):
         for layer in gcode.all_layers:
diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index bbb65b0..aab74ae 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -364,6 +364,11 @@ class GCode(object):
             self.layer_idxs = array('I', [])
             self.line_idxs = array('I', [])
 
+    def reload(self):
+        """read the program again from its layers, to be used once their lines have been changed"""
+        raws = [raw for layer in self.all_layers for line in layer for raw in line.raw.split("\n")]
+        self.__dict__.update(self.__class__(raws, home_pos=self.home_pos).__dict__)
+
     def __len__(self):
         return len(self.line_idxs)
 
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 5dbefe4..c2d2182 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -348,6 +348,9 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+        # the lines, indexes, positions and layers are those of the stretched program
+        self.gcode.reload()
+
     def locate_lines(self):
         """Find the location reached by each line, as moves omit the coordinates which don't change."""
         self.locations = {}
-- 
2.43.0


From 899e37b6dbb5e54e5a66a242b5bfdea4929ac5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 43/50] fix: filters and pauses used on several programs go on
 with the state left by the previous one

---
 gcodeutils/filter/arc_optimizer.py      | 4 ++++
 gcodeutils/filter/filter.py             | 5 +++++
 gcodeutils/filter/relative_extrusion.py | 3 +++
 gcodeutils/filter/translate.py          | 3 +++
 gcodeutils/stretch/stretch.py           | 2 ++
 gcodeutils/visit/pause_at_layer.py      | 6 ++++++
 6 files changed, 23 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index c75cce3..f32a99b 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -85,7 +85,11 @@ class GCodeArcOptimizerFilter(GCodeFilter):
     valid_circle = False
 
     def __init__(self):
+        self.start()
+
+    def start(self):
         self.queue = []
+        self.valid_circle = False
 
     @staticmethod
     def phase_diff(phase1, phase2):
diff --git a/gcodeutils/filter/filter.py b/gcodeutils/filter/filter.py
index faaab83..217f7b2 100644
--- a/gcodeutils/filter/filter.py
+++ b/gcodeutils/filter/filter.py
@@ -7,7 +7,12 @@ class GCodeFilter(object):
     def opcode_filter(self, x):
         raise NotImplementedError
 
+    def start(self):
+        """Called before a program is filtered, as a filter may be used for several programs"""
+        pass
+
     def filter(self, gcode):
+        self.start()
         self.parse_gcode(gcode, self.opcode_filter)
         # the lines, indexes, positions and layers are those of the filtered program
         gcode.reload()
diff --git a/gcodeutils/filter/relative_extrusion.py b/gcodeutils/filter/relative_extrusion.py
index 5e20932..2a927c1 100644
--- a/gcodeutils/filter/relative_extrusion.py
+++ b/gcodeutils/filter/relative_extrusion.py
@@ -10,6 +10,9 @@ __author__ = 'olivier'
 
 class GCodeToRelativeExtrusionFilter(GCodeFilter):
     def __init__(self):
+        self.start()
+
+    def start(self):
         self.relative_extrusion = False
         self.current_extrusion_distance = Decimal()
 
diff --git a/gcodeutils/filter/translate.py b/gcodeutils/filter/translate.py
index 64ceec6..c8b9813 100644
--- a/gcodeutils/filter/translate.py
+++ b/gcodeutils/filter/translate.py
@@ -14,6 +14,9 @@ class GCodeXYTranslateFilter(GCodeFilter):
         self.amount_x = x or 0.
         self.amount_y = y or 0.
 
+        self.start()
+
+    def start(self):
         # what is left to add to absolute coordinates
         self.translate_x = self.amount_x
         self.translate_y = self.amount_y
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index c2d2182..1037fcf 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -337,6 +337,8 @@ class StretchFilter:
         """Parse gcode text and store the stretch gcode."""
         self.gcode = gcode
 
+        # a loop which isn't finished doesn't go on in another program
+        self.set_stretch_to_path()
         self.setup_filter()
         self.locate_lines()
 
diff --git a/gcodeutils/visit/pause_at_layer.py b/gcodeutils/visit/pause_at_layer.py
index 6f702f3..c44a916 100644
--- a/gcodeutils/visit/pause_at_layer.py
+++ b/gcodeutils/visit/pause_at_layer.py
@@ -18,6 +18,12 @@ class PauseAtLayer(GCodeVisitor):
         self.__pause_layer_list = pause_layer_list
         self.__started_layers = set()
 
+    def will_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
+        """Starts afresh with each program
+        """
+        if gcode_iterator_info.layer_index == 0:
+            self.__started_layers.clear()
+
     def did_visit_layer(self, layer_as_pyline_list, gcode_iterator_info):
         """Inserts a pause command if the layer matches the list
         """
-- 
2.43.0


From 304a3c1cd01dfce70927b2c7ab1bc5e4cc197e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:15 +0000
Subject: [PATCH 44/50] fix: lines inserted in a layer are not filtered, having
 no coordinates

---
 gcodeutils/filter/filter.py   | 2 ++
 gcodeutils/stretch/stretch.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/gcodeutils/filter/filter.py b/gcodeutils/filter/filter.py
index 217f7b2..17a50bd 100644
--- a/gcodeutils/filter/filter.py
+++ b/gcodeutils/filter/filter.py
@@ -12,6 +12,8 @@ class GCodeFilter(object):
         pass
 
     def filter(self, gcode):
+        # lines inserted by an edition have no coordinates nor positions yet
+        gcode.reload()
         self.start()
         self.parse_gcode(gcode, self.opcode_filter)
         # the lines, indexes, positions and layers are those of the filtered program
diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 1037fcf..064fcb5 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -337,6 +337,9 @@ class StretchFilter:
         """Parse gcode text and store the stretch gcode."""
         self.gcode = gcode
 
+        # lines inserted by an edition have no coordinates nor positions yet
+        self.gcode.reload()
+
         # a loop which isn't finished doesn't go on in another program
         self.set_stretch_to_path()
         self.setup_filter()
-- 
2.43.0


From 91bb61aab35badc8aa559ccaf119cdd463fd1872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 45/50] fix: a program whose lines are all removed by a filter
 keeps its modes and positions

---
 gcodeutils/gcoder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index aab74ae..a547b33 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -367,7 +367,10 @@ class GCode(object):
     def reload(self):
         """read the program again from its layers, to be used once their lines have been changed"""
         raws = [raw for layer in self.all_layers for line in layer for raw in line.raw.split("\n")]
-        self.__dict__.update(self.__class__(raws, home_pos=self.home_pos).__dict__)
+        fresh = self.__class__(raws, home_pos=self.home_pos)
+        for name in vars(GCode):
+            vars(self).pop(name, None)
+        vars(self).update(vars(fresh))
 
     def __len__(self):
         return len(self.line_idxs)
-- 
2.43.0


From 92b7af6dd3e924af7faa96fe6a720413f268f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 46/50] fix: light programs, and lines inserted in a program,
 are compared without their coordinates

---
 gcodeutils/gcoder.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/gcodeutils/gcoder.py b/gcodeutils/gcoder.py
index a547b33..d136c26 100755
--- a/gcodeutils/gcoder.py
+++ b/gcodeutils/gcoder.py
@@ -364,10 +364,13 @@ class GCode(object):
             self.layer_idxs = array('I', [])
             self.line_idxs = array('I', [])
 
+    def raw_lines(self):
+        """return the text of the lines of the layers"""
+        return [raw for layer in self.all_layers for line in layer for raw in line.raw.split("\n")]
+
     def reload(self):
         """read the program again from its layers, to be used once their lines have been changed"""
-        raws = [raw for layer in self.all_layers for line in layer for raw in line.raw.split("\n")]
-        fresh = self.__class__(raws, home_pos=self.home_pos)
+        fresh = self.__class__(self.raw_lines(), home_pos=self.home_pos)
         for name in vars(GCode):
             vars(self).pop(name, None)
         vars(self).update(vars(fresh))
@@ -887,10 +890,10 @@ class GCode(object):
 
     def comment_stripper_generator(self):
         """return only non comment lines"""
-        for layer in self.all_layers:
-            for line in layer:
-                if line.command is not None:
-                    yield line
+        # light lines, and lines inserted by an edition, don't have the coordinates to compare
+        for line in GCode(self.raw_lines()):
+            if line.command is not None:
+                yield line
 
 
 class LightGCode(GCode):
-- 
2.43.0


From 17183493db49d039934166002d3f9c319b349359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:09 +0000
Subject: [PATCH 47/50] fix: the edge width found in a program is used by a
 stretch filter for the next program

---
 gcodeutils/stretch/stretch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gcodeutils/stretch/stretch.py b/gcodeutils/stretch/stretch.py
index 064fcb5..6ff0ec0 100644
--- a/gcodeutils/stretch/stretch.py
+++ b/gcodeutils/stretch/stretch.py
@@ -340,7 +340,8 @@ class StretchFilter:
         # lines inserted by an edition have no coordinates nor positions yet
         self.gcode.reload()
 
-        # a loop which isn't finished doesn't go on in another program
+        # a loop which isn't finished, or an edge width, doesn't go on in another program
+        edge_width = self.edgeWidth
         self.set_stretch_to_path()
         self.setup_filter()
         self.locate_lines()
@@ -353,6 +354,8 @@ class StretchFilter:
                 parse_coordinates(gcode_line, split(gcode_line), gcode_line.imperial)
                 self.gcode.all_layers[self.current_layer_index][self.line_number_in_layer] = gcode_line
 
+        self.set_edge_width(edge_width)
+
         # the lines, indexes, positions and layers are those of the stretched program
         self.gcode.reload()
 
-- 
2.43.0


From 98599b4f93784df36ae2af86a412eed7bed1b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:15 +0000
Subject: [PATCH 48/50] fix: write a temperature gradient again from the start

---
 gcodeutils/gcode_tempcal.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gcodeutils/gcode_tempcal.py b/gcodeutils/gcode_tempcal.py
index df8ced1..a4a86ce 100644
--- a/gcodeutils/gcode_tempcal.py
+++ b/gcodeutils/gcode_tempcal.py
@@ -84,6 +84,10 @@ class GCodeTempGradient(object):  # pylint: disable=too-many-instance-attributes
     def write(self, output_file=sys.stdout):
         """Write the modified GCode"""
 
+        # nothing is left from a previous call
+        self.zmin = None
+        self.last_target_temperature = None
+
         self._parse_gcode()
 
         # spit back the original GCode with temperature GCode injected accordingly to their Z
-- 
2.43.0


From 7babb90ee4ff01576bf4d407102b0016dde888df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 49/50] fix: a turn which ends next to its start may become an
 arc which collapses

---
 gcodeutils/filter/arc_optimizer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index f32a99b..407f94d 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -21,6 +21,7 @@ MAX_RADIUS = 200              # mm, maximum radius of the detectable circle
 ALIGNMENT_ERROR = 0.015       # 15 µm, max. offset a point might be off of the resulting circle
 PHASE_ERROR = 5*cmath.pi/180  # 5° in radian, max deviation of the angle steps forming a circle
 EXTRUSION_ERROR = 0.15        # 15%, maximum deviation of the extrusion for the segments
+RESOLUTION = 0.001            # of the words of an arc
 EPSILON = 0.000001            # epsilon for zero comapriosn of float. everything less than will be treated as zero
 
 EXTRUSION_CORRECTION_LIMIT=0.01 # 1%, if the length of all segments deviates more than this from the legnth of the arc
@@ -223,6 +224,10 @@ class GCodeArcOptimizerFilter(GCodeFilter):
         if not (all([diff > 0 for diff in phase_diffs]) or all([diff < 0 for diff in phase_diffs])) or \
                 abs(sum(phase_diffs)) > 2 * cmath.pi + EPSILON:
             return True, circle
+        # a turn which isn't closed has to end before its start, whatever the rounding of the words: the arc would collapse
+        if abs(sum(phase_diffs)) * circle.radius > 2 * cmath.pi * circle.radius - RESOLUTION and \
+                circle.start.distance_to(circle.end) > EPSILON:
+            return True, circle
         angle_err = self.get_circle_angle_errors(circle)
         return any([error > PHASE_ERROR for error in angle_err]), circle
 
-- 
2.43.0


From e7c8ac9f38667e84687429eb23b3abff1542ed6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:16 +0000
Subject: [PATCH 50/50] fix: segments of clockwise arcs may be longer than the
 others, and those of counterclockwise ones shorter

---
 gcodeutils/filter/arc_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gcodeutils/filter/arc_optimizer.py b/gcodeutils/filter/arc_optimizer.py
index 407f94d..fe4ebeb 100644
--- a/gcodeutils/filter/arc_optimizer.py
+++ b/gcodeutils/filter/arc_optimizer.py
@@ -229,7 +229,7 @@ class GCodeArcOptimizerFilter(GCodeFilter):
                 circle.start.distance_to(circle.end) > EPSILON:
             return True, circle
         angle_err = self.get_circle_angle_errors(circle)
-        return any([error > PHASE_ERROR for error in angle_err]), circle
+        return any([abs(error) > PHASE_ERROR for error in angle_err]), circle
 
     def get_distances(self):
         """
-- 
2.43.0

