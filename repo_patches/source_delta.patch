From 7583a853024a12188fcb45da9789a7f3f9ddcb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 01/32] fix: make_block --no-parallel crashed with a TypeError

---
 factorio_sat/make_block.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 243a454..0b8e9c3 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -56,10 +56,11 @@ def prevent_parallel(grid: solver.Grid):
                 if tile_b is None:
                     continue
 
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 0]])
-                grid.clauses.append([-tile_a.underground[direction + 0], -tile_b.underground[direction + 2]])
-                grid.clauses.append([-tile_a.underground[direction + 2], -tile_b.underground[direction + 2]])
+                inv_direction = direction.reverse
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[inv_direction], -tile_b.underground[direction]])
+                grid.clauses.append([-tile_a.underground[direction], -tile_b.underground[inv_direction]])
+                grid.clauses.append([-tile_a.underground[inv_direction], -tile_b.underground[inv_direction]])
 
 
 def main():
-- 
2.43.0


From 8cc187e225c8b19916116d3068101436a624a074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 02/32] fix: make_block ignored --underground-length without
 --single-loop

---
 factorio_sat/make_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/make_block.py b/factorio_sat/make_block.py
index 0b8e9c3..eba2205 100644
--- a/factorio_sat/make_block.py
+++ b/factorio_sat/make_block.py
@@ -87,7 +87,7 @@ def main():
     if args.single_loop:
         grid = solver.Grid(args.width, args.height, args.width * args.height, args.underground_length, edge_mode=edge_mode)
     else:
-        grid = solver.Grid(args.width, args.height, 1, edge_mode=edge_mode)
+        grid = solver.Grid(args.width, args.height, 1, args.underground_length, edge_mode=edge_mode)
 
     grid.prevent_intersection()
     grid.prevent_bad_undergrounding()
-- 
2.43.0


From 3e13b1391187c2aa2b60973f0adda7a532ad57b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:19 +0000
Subject: [PATCH 03/32] fix: calculate_optimal query --export-blueprints
 crashed on the belt level

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index fbd63b3..34dea16 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -294,7 +294,8 @@ def main():
                 for i, row in enumerate(tiles):
                     for j, entry in enumerate(row):
                         tiles[i, j] = blueprint.read_tile(entry)
-                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, get_belt_level(args.underground_length)))
+                level = blueprint.TransportBeltLevel[get_belt_level(args.underground_length).upper()]
+                return blueprint.encode_blueprint(blueprint.make_blueprint(tiles, label, level))
         else:
             def encode_solution(solution, _):
                 return json.dumps(solution)
-- 
2.43.0


From a7cc4f1d4e24456cc79ea666bfcd85372b57e548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 04/32] fix: belt_balancer never considered the last
 input/output offset

---
 factorio_sat/belt_balancer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 474afcc..5de33c4 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -44,7 +44,10 @@ def setup_balancer_ends_with_offsets(grid, network, start_offset: int, end_offse
 
 def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    if len(tiles) == count:
+        offsets = []
+    else:
+        offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
     if len(offsets) == 0:
         for tile in tiles:
@@ -66,7 +69,10 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
 
 def setup_balancer_output(grid: Grid, tiles: Sequence[TileTemplate], direction: int, count: int, rest_empty: bool = True):
     assert count <= len(tiles)
-    offsets = [grid.allocate_variable() for _ in range(len(tiles) - count)]
+    if len(tiles) == count:
+        offsets = []
+    else:
+        offsets = [grid.allocate_variable() for _ in range(len(tiles) - count + 1)]
 
     if len(offsets) == 0:
         for tile in tiles:
-- 
2.43.0


From ae87abf617b271d31f95345c7993052dee25a8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 05/32] fix: belt_balancer --use-ends/--180 forced a belt on
 every tile beside the inputs

---
 factorio_sat/belt_balancer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/belt_balancer.py b/factorio_sat/belt_balancer.py
index 5de33c4..ab8a624 100644
--- a/factorio_sat/belt_balancer.py
+++ b/factorio_sat/belt_balancer.py
@@ -62,7 +62,7 @@ def setup_balancer_input(grid: Grid, tiles: Sequence[TileTemplate], direction: i
                 elif rest_empty:
                     consequences += set_all_false(tile.all_direction)
                 else:
-                    consequences += [[-tile.input_direction[direction]], [tile.is_belt]]
+                    consequences += [[-tile.input_direction[direction]]]
             grid.clauses += implies([literal], consequences)
     return offsets
 
-- 
2.43.0


From 3b6d791bc73f650087989885f65d45269c36129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 06/32] fix: network parse rejected underground entrances in
 the top row

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b8da5cf..b6b1e4d 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -549,7 +549,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     dx, dy = tile.direction.vec
                     while True:
                         pos = pos[0] - dx, pos[1] - dy
-                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 1 and pos[1] < tiles.shape[1]
+                        assert pos[0] >= 0 and pos[0] < tiles.shape[0] and pos[1] >= 0 and pos[1] < tiles.shape[1]
 
                         current_tile = tiles[pos]
                         assert current_tile != UndergroundBelt(tile.direction, False)
-- 
2.43.0


From b7bbe54b7c89defee571fc5bdd6551e4e53b606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 07/32] fix: network parse crashed on splitters and belts next
 to empty or non-belt tiles

---
 factorio_sat/network.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index b6b1e4d..de841e3 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -9,7 +9,7 @@ from typing import Tuple
 import numpy as np
 from pysat.solvers import Solver
 
-from .tile import Belt, EmptyTile, FillerTile, Splitter, UndergroundBelt
+from .tile import Belt, BeltConnectedTile, Splitter, UndergroundBelt
 from .util import bin_length, get_popcount, read_number, set_not_number
 from . import blueprint
 
@@ -565,7 +565,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             return
 
         tile = tiles[pos]
-        if tile == EmptyTile():
+        if not isinstance(tile, BeltConnectedTile):
             return
 
         if isinstance(tile, Splitter):
@@ -587,7 +587,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             if colour_mapping[x, y] is not None:
                 continue
 
-            if tile == EmptyTile() or tile == FillerTile():
+            if not isinstance(tile, BeltConnectedTile):
                 colour_mapping[x, y] = -1
                 continue
 
@@ -620,7 +620,7 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
                     continue
 
                 offset_tile = tiles[pos]
-                if offset_tile is None:
+                if not isinstance(offset_tile, BeltConnectedTile):
                     node[-1].append(None)
                     continue
 
-- 
2.43.0


From 893fff5cd224915675878681f640bf0709cdba5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 08/32] fix: blueprint import crashed on belts that face each
 other

---
 factorio_sat/blueprint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 649d81e..11f2812 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -118,6 +118,9 @@ def resolve_belt_input_directions(tiles):
 
         input_direction = None
         for direction in Direction:
+            if direction == tile.output_direction.reverse:
+                continue  # A belt cannot be fed from its front
+
             x1 = x - direction.dx
             y1 = y - direction.dy
             if x1 < 0 or x1 >= tiles.shape[1] or y1 < 0 or y1 >= tiles.shape[0]:
-- 
2.43.0


From 271463da88c755035e4fdee2aea82707e6070a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 09/32] fix: blueprint encode/decode crashed on an empty
 blueprint

---
 factorio_sat/blueprint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index 11f2812..fbf5609 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -267,7 +267,7 @@ def convert_to_tiles(blueprint_or_json: str) -> np.ndarray:
             tiles = json.loads(blueprint_or_json)
         except json.JSONDecodeError:
             raise RuntimeError('Failed to decode string as either blueprint or json')
-        tiles = np.vectorize(read_tile)(tiles)
+        tiles = np.vectorize(read_tile, otypes=[object])(tiles)
     else:
         tiles = import_blueprint(decoded_blueprint)
 
@@ -289,13 +289,13 @@ def main():
     if args.mode == 'encode':
         while True:
             tiles = np.array(json.loads(input()))
-            tiles = np.vectorize(read_tile)(tiles)
+            tiles = np.vectorize(read_tile, otypes=[object])(tiles)
             print(encode_blueprint(make_blueprint(tiles, args.label, TransportBeltLevel[args.level.upper()])))
 
     elif args.mode == 'decode':
         while True:
             decoded = decode_blueprint(input())
-            tiles = np.vectorize(write_tile)(import_blueprint(decoded))
+            tiles = np.vectorize(write_tile, otypes=[object])(import_blueprint(decoded))
             print(json.dumps(tiles.tolist()))
     else:
         assert False
-- 
2.43.0


From e06fad496b6ec3d892768e43ccb37870f883870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 10/32] fix: rotate left the parts of assembling machines in
 their old places

---
 factorio_sat/tile.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/tile.py b/factorio_sat/tile.py
index 60087f7..70cd7ce 100644
--- a/factorio_sat/tile.py
+++ b/factorio_sat/tile.py
@@ -189,12 +189,18 @@ class Inserter(TransformableTile):
 
 
 @dataclass(frozen=True)
-class AssemblingMachine(BaseTile):
+class AssemblingMachine(TransformableTile):
     type_key: ClassVar[str] = 'assembling_machine'
 
     x: int
     y: int
 
+    def flip_x(self) -> 'AssemblingMachine':
+        return type(self)(2 - self.x, self.y)
+
+    def rotate_90(self) -> 'AssemblingMachine':
+        return type(self)(self.y, 2 - self.x)
+
     def __post_init__(self):
         assert 0 <= self.x < 3
         assert 0 <= self.y < 3
-- 
2.43.0


From e0b2b7f16bcce188dfa2924bf9cd3fc6cc40de66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 11/32] fix: logarithmic_amo also required at least one literal

---
 factorio_sat/cardinality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index c5860b5..1852d31 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -18,7 +18,7 @@ def quadratic_amo(literals: List[LiteralType], _: Optional[AllocatorType] = None
 
 def logarithmic_amo(literals: List[LiteralType], allocator: AllocatorType) -> ClauseList:
     location_literals = [allocator() for _ in range(bin_length(len(literals)))]
-    clauses = [list(literals)]
+    clauses = []
     for i, lit in enumerate(literals):
         clauses += implies([lit], set_number(i, location_literals))
     return clauses
-- 
2.43.0


From 546a9b3dca7bf97e5e5f7a1d34069e03928dbdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 12/32] fix: iterate_tile_blocks tested its vertical bounds
 against x

---
 factorio_sat/template.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index e7997a5..16f1601 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -339,7 +339,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if min_y is not None:
                     if y < min_y:
                         continue
-                    if x + max_y_offset < min_y:
+                    if y + max_y_offset < min_y:
                         continue
                 if max_x is not None:
                     if x > max_x:
@@ -349,7 +349,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if max_y is not None:
                     if y > max_y:
                         continue
-                    if x + max_y_offset > max_y:
+                    if y + max_y_offset > max_y:
                         continue
 
                 yield np.frompyfunc(get_tile, 2, 1)(*np.ogrid[0:row_count, 0:column_count])
-- 
2.43.0


From cec4cb866af92a7ef2a42f1ed87eece197221885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:21 +0000
Subject: [PATCH 13/32] fix: calculate_optimal lost the whole database when
 interrupted while saving

---
 factorio_sat/calculate_optimal.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index 34dea16..f918ea8 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -283,8 +283,12 @@ def main():
         data = {}
         for store in stores:
             data[store.network_name] = store.to_json()
-        with open(result_file, 'w') as f:
+        temporary_file = result_file + '.tmp'
+        with open(temporary_file, 'w') as f:
             json.dump(data, f)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(temporary_file, result_file)
 
     if args.mode == 'query':
         if args.export_blueprints:
-- 
2.43.0


From 67c44a196cbfbb0f8f31e626990d4611906da0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:51 +0000
Subject: [PATCH 14/32] fix: adjacent splitters could be treated as unconnected

Two splitters in a row with an unused output facing an unused input are
joined in the game, but the encoder accepted them as unconnected, so
belt_balancer printed layouts that do not implement the network.
---
 factorio_sat/solver.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/factorio_sat/solver.py b/factorio_sat/solver.py
index e686613..fc8e293 100644
--- a/factorio_sat/solver.py
+++ b/factorio_sat/solver.py
@@ -495,6 +495,11 @@ class Grid(FactorioGrid[TileTemplate, Dict[str, Any]]):
                     [-tile_b.input_direction[direction.reverse], -tile_b.output_direction[direction.prev]],
                 ])
 
+                # A splitter directly in front of another splitter is always connected to it
+                self.clauses += implies([tile_a.input_direction[direction], tile_a.is_splitter, tile_b.is_splitter, tile_b.output_direction[direction]], [
+                    [tile_a.output_direction[direction]],
+                ])
+
     def itersolve(self, important_variables=set(), solver='g3', ignore_colour=False):
         important_variables = set(important_variables)
         for x in range(self.width):
-- 
2.43.0


From 488f85334e6c057631dab8426f54a7b0caf6bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:38 +0000
Subject: [PATCH 15/32] fix: reading solver output without tile entries left
 directions as numbers

---
 factorio_sat/blueprint.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/factorio_sat/blueprint.py b/factorio_sat/blueprint.py
index fbf5609..c13b3dd 100644
--- a/factorio_sat/blueprint.py
+++ b/factorio_sat/blueprint.py
@@ -206,16 +206,19 @@ def read_tile(item) -> BaseTile:
     if 'tile' in item:
         return BaseTile.read(item['tile'])
 
-    input_direction = item['input_direction']
-    output_direction = item['output_direction']
+    def get_direction(key: str) -> Optional[Direction]:
+        return None if item[key] is None else Direction(item[key])
+
+    input_direction = get_direction('input_direction')
+    output_direction = get_direction('output_direction')
     if 'is_empty' in item:
         if item['is_empty']:
             tile = EmptyTile()
         elif item['is_belt']:
             if input_direction is None:
-                input_direction = item['colour_direction']
+                input_direction = get_direction('colour_direction')
             if output_direction is None:
-                output_direction = item['colour_direction']
+                output_direction = get_direction('colour_direction')
 
             assert input_direction is not None or output_direction is not None
 
@@ -226,11 +229,11 @@ def read_tile(item) -> BaseTile:
             tile = UndergroundBelt(output_direction, False)
         elif item['is_splitter'] is not None and not item['is_splitter'] is False:
             try:
-                tile = Splitter(item['colour_direction'], item['is_splitter'])
+                tile = Splitter(get_direction('colour_direction'), item['is_splitter'])
             except KeyError:
-                tile = Splitter(item['splitter_direction'], item['splitter_side'])
+                tile = Splitter(get_direction('splitter_direction'), item['splitter_side'])
         elif item['is_inserter'] is not None:
-            tile = Inserter(item['inserter_direction'], item['is_inserter'])
+            tile = Inserter(get_direction('inserter_direction'), item['is_inserter'])
         elif item['is_assembling_machine']:
             tile = AssemblingMachine(item['assembling_x'], item['assembling_y'])
         else:
-- 
2.43.0


From 0948cb8cc0a68a859e58d34615eb17bea829945b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:27 +0000
Subject: [PATCH 16/32] fix: network parse failed on belts longer than the
 recursion limit

---
 factorio_sat/network.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index de841e3..ef52da3 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -561,23 +561,24 @@ def parse_network(tiles, assume_edge_splitter_are_connected=False):
             raise RuntimeError(f'Unknown tile type: {tile}')
 
     def trace(colour: int, pos: Tuple[int, int], is_forward: bool):
-        if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
-            return
+        while True:
+            if pos[0] < 0 or pos[0] >= tiles.shape[0] or pos[1] < 0 or pos[1] >= tiles.shape[1]:
+                return
 
-        tile = tiles[pos]
-        if not isinstance(tile, BeltConnectedTile):
-            return
+            tile = tiles[pos]
+            if not isinstance(tile, BeltConnectedTile):
+                return
 
-        if isinstance(tile, Splitter):
-            return
+            if isinstance(tile, Splitter):
+                return
 
-        if colour_mapping[pos] is not None:
-            assert colour_mapping[pos] == colour
-            return
+            if colour_mapping[pos] is not None:
+                assert colour_mapping[pos] == colour
+                return
 
-        colour_mapping[pos] = colour
+            colour_mapping[pos] = colour
 
-        trace(colour, next_tile(pos, is_forward), is_forward)
+            pos = next_tile(pos, is_forward)
 
     for x, row in enumerate(tiles):
         for y, tile in enumerate(row):
-- 
2.43.0


From 9cc13a8ea3139f99c9fe7584bf47bdda0812ad64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:33 +0000
Subject: [PATCH 17/32] fix: a solver library that stopped without an answer
 was taken for no solution

---
 factorio_sat/template.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 16f1601..7a80ead 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -409,7 +409,10 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                if s.solve():
+                result = s.solve()
+                if result is None:
+                    raise RuntimeError('Solver stopped without an answer')
+                if result:
                     return self.parse_solution(s.get_model())
                 else:
                     return None
@@ -428,7 +431,13 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 s = Solver(name=solver, bootstrap_with=self.clauses)
 
             with s:
-                while s.solve():
+                while True:
+                    result = s.solve()
+                    if result is None:
+                        raise RuntimeError('Solver stopped without an answer')
+                    if not result:
+                        break
+
                     solution = s.get_model()
                     yield self.parse_solution(solution)
 
-- 
2.43.0


From ceebc0b615c1dac70e40e8000fc4656493d6a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:33 +0000
Subject: [PATCH 18/32] fix: exhaustive search through an external solver
 stopped after the first solution

---
 factorio_sat/template.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 7a80ead..9d689a9 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -419,10 +419,14 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
 
     def itersolve(self, important_variables=set(), solver: str = 'g3') -> Iterator[np.ndarray]:
         if solver.startswith('cmd:'):
-            solution = run_command_solver(solver[4:], self.clauses)
-            if solution is None:
-                return
-            yield self.parse_solution(solution)
+            clauses = list(self.clauses)
+            while True:
+                solution = run_command_solver(solver[4:], clauses)
+                if solution is None:
+                    return
+                yield self.parse_solution(solution)
+
+                clauses.append([-lit for lit in solution if abs(lit) in important_variables])
         else:
             if solver.startswith('lib:'):
                 s = IPASIRLibrary(solver[4:]).create_solver()
-- 
2.43.0


From 91638010cb6e1257bf7c52b71d2a34d81b2cf57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:55 +0000
Subject: [PATCH 19/32] fix: models from a solver library left out variables
 that occur in no clause

---
 factorio_sat/ipasir.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/ipasir.py b/factorio_sat/ipasir.py
index 361eb76..005085f 100644
--- a/factorio_sat/ipasir.py
+++ b/factorio_sat/ipasir.py
@@ -134,7 +134,7 @@ class IPASIRSolver:
         self.check_closed()
 
         model = []
-        for var in self.variables:
+        for var in range(1, max(self.variables, default=0) + 1):
             value = self.lib.ipasir_val(self.solver_p, var)
             if value == 0:
                 value = var
-- 
2.43.0


From 741cf25e58c9dcb9dc84c4c485540f0d653df633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:14 +0000
Subject: [PATCH 20/32] fix: balancer requests with fewer tiles than splitters
 stopped with a ValueError

---
 factorio_sat/cardinality.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/factorio_sat/cardinality.py b/factorio_sat/cardinality.py
index 1852d31..26bd099 100644
--- a/factorio_sat/cardinality.py
+++ b/factorio_sat/cardinality.py
@@ -48,6 +48,9 @@ def heule_one(literals: List[LiteralType], allocator: AllocatorType, recursive_c
 
 
 def library_equals(inputs: List[LiteralType], n: int, pool: IDPool, encoding=EncType.kmtotalizer) -> ClauseList:
+    if n > len(inputs):  # Cannot be satisfied
+        contradiction = pool._next()
+        return [[contradiction], [-contradiction]]
     clauses = CardEnc.equals(inputs, n, vpool=pool, encoding=encoding).clauses
     if len(clauses) == 0:
         raise RuntimeError('Failed to generate clauses')
@@ -62,6 +65,9 @@ def library_atmost(inputs: List[LiteralType], n: int, pool: IDPool) -> ClauseLis
 
 
 def library_atleast(inputs: List[LiteralType], n: int, pool: IDPool) -> ClauseList:
+    if n > len(inputs):  # Cannot be satisfied
+        contradiction = pool._next()
+        return [[contradiction], [-contradiction]]
     clauses = CardEnc.atleast(inputs, n, vpool=pool, encoding=EncType.kmtotalizer).clauses
     if len(clauses) == 0:
         raise RuntimeError('Failed to generate clauses')
-- 
2.43.0


From e00b1391d1634d0ea9e6327d5898e075551fc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:34 +0000
Subject: [PATCH 21/32] fix: break_vertical_symmetry crashed on a single row

---
 factorio_sat/optimisations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/optimisations.py b/factorio_sat/optimisations.py
index d3bdb64..241588f 100644
--- a/factorio_sat/optimisations.py
+++ b/factorio_sat/optimisations.py
@@ -412,7 +412,7 @@ def break_vertical_symmetry(grid: Grid):
     top: List[LiteralType] = []
     bot: List[LiteralType] = []
 
-    for dy in range(max(2, grid.height // 2)):
+    for dy in range(min(grid.height, max(2, grid.height // 2))):
         for x in range(grid.width):
             top_tile = grid.get_tile_instance(x, dy)
             bot_tile = grid.get_tile_instance(x, grid.height - 1 - dy)
-- 
2.43.0


From 4962552d7c332b20c91e490a52ba8fc5d30ba2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:49 +0000
Subject: [PATCH 22/32] fix: export-crosstable glued its heading to a last line
 without a line end

---
 factorio_sat/calculate_optimal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index f918ea8..b6cf533 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -196,6 +196,9 @@ def export_crosstable(stores: List[NetworkSolutionStore], crosstable_filename: s
     except FileNotFoundError:
         pass
 
+    if len(preamble) != 0 and not preamble.endswith('\n'):
+        preamble += '\n'
+
     with open(crosstable_filename, 'w') as f:
         f.write(preamble)
         f.write('# Balancers\n')
-- 
2.43.0


From 77a335d5e7d9b652ea7a27593225d260c976ec82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 23/32] fix: a blueprint packed twice into a book got the same
 position both times

---
 factorio_sat/blueprint_book.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/blueprint_book.py b/factorio_sat/blueprint_book.py
index fe1aced..9b0b625 100644
--- a/factorio_sat/blueprint_book.py
+++ b/factorio_sat/blueprint_book.py
@@ -16,7 +16,7 @@ def pack_book(blueprints, label=None):
     if label is not None:
         blueprint_book['blueprint_book']['label'] = label
 
-    blueprints = list(copy.deepcopy(blueprints))
+    blueprints = [copy.deepcopy(item) for item in blueprints]
 
     for i, item in enumerate(blueprints):
         item['index'] = i
-- 
2.43.0


From 6c7c0126321580d3a8cf4caf7e932f84a4510c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:20 +0000
Subject: [PATCH 24/32] fix: solving failed with a KeyError when the last
 variables occur in no clause

---
 factorio_sat/template.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/template.py b/factorio_sat/template.py
index 9d689a9..b7b3279 100644
--- a/factorio_sat/template.py
+++ b/factorio_sat/template.py
@@ -8,7 +8,7 @@ import subprocess
 import sys
 import tempfile
 from dataclasses import dataclass
-from typing import Any, Callable, Dict, Generic, Iterator, List, NamedTuple, Optional, Protocol, Sequence, Tuple, TypeVar, Union
+from typing import Any, Callable, Dict, Generic, Iterator, List, NamedTuple, Optional, Protocol, Sequence, Set, Tuple, TypeVar, Union
 
 import numpy as np
 from pysat.formula import CNF, IDPool
@@ -392,6 +392,11 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
         mapping = {abs(lit): lit > 0 for lit in solution}
         return np.frompyfunc(functools.partial(self.parse_cell, mapping), 1, 1)(self.tiles)
 
+    def get_unused_variables(self) -> Set[int]:
+        # Solvers do not know about variables beyond the last one that occurs in a clause
+        top = max((abs(lit) for clause in self.clauses for lit in clause), default=0)
+        return set(range(top + 1, self.pool.top + 1))
+
     def check(self, solver: str = 'g3'):
         return self.solve(solver) is not None
 
@@ -400,7 +405,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
             solution = run_command_solver(solver[4:], self.clauses)
             if solution is None:
                 return None
-            return self.parse_solution(solution)
+            return self.parse_solution(solution + [-var for var in self.get_unused_variables()])
         else:
             if solver.startswith('lib:'):
                 s = IPASIRLibrary(solver[4:]).create_solver()
@@ -413,17 +418,19 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                 if result is None:
                     raise RuntimeError('Solver stopped without an answer')
                 if result:
-                    return self.parse_solution(s.get_model())
+                    return self.parse_solution(s.get_model() + [-var for var in self.get_unused_variables()])
                 else:
                     return None
 
     def itersolve(self, important_variables=set(), solver: str = 'g3') -> Iterator[np.ndarray]:
+        unused_variables = self.get_unused_variables()
         if solver.startswith('cmd:'):
             clauses = list(self.clauses)
             while True:
                 solution = run_command_solver(solver[4:], clauses)
                 if solution is None:
                     return
+                solution += [-var for var in unused_variables.difference(map(abs, solution))]
                 yield self.parse_solution(solution)
 
                 clauses.append([-lit for lit in solution if abs(lit) in important_variables])
@@ -443,6 +450,7 @@ class BaseGrid(Generic[InstanceType, ParsedType]):
                         break
 
                     solution = s.get_model()
+                    solution += [-var for var in unused_variables.difference(map(abs, solution))]
                     yield self.parse_solution(solution)
 
                     s.add_clause([-lit for lit in solution if abs(lit) in important_variables])
-- 
2.43.0


From 3d87867c1dc016cf1d6de1e2e276e1c4a918c00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 25/32] fix: network render deleted the file named like its
 output without the extension

Rendering networks/5x5 to networks/5x5.png overwrote and removed the network itself.
---
 factorio_sat/network.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index ef52da3..a9f7965 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -117,8 +117,10 @@ def plot(network, filename=None, engine='dot'):
     if filename is None:
         g.render('Network', format='png', view=True, cleanup=True)
     else:
-        prefix, ext = path.splitext(filename)
-        g.render(prefix, format=ext[1:], view=False, cleanup=True)
+        _, ext = path.splitext(filename)
+        data = g.pipe(format=ext[1:])
+        with open(filename, 'wb') as f:
+            f.write(data)
 
 
 def remap_colours(network, colour_map):
-- 
2.43.0


From 5926f0e6132b4d01c3d985c325f9248b05c6eb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 26/32] fix: network render left the ends unconnected when
 their colour also joins two splitters

---
 factorio_sat/network.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index a9f7965..cd0551f 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -100,7 +100,7 @@ def plot(network, filename=None, engine='dot'):
     for colour, occurences in colour_occurences.items():
         output_count = sum(side == OUTPUT_SIDE for side, _ in occurences)
         input_count = sum(side == INPUT_SIDE for side, _ in occurences)
-        if input_count == 1 and output_count == 1:
+        if input_count == 1 and output_count == 1 and colour not in (network_input_colour, network_output_colour):
             node_a, node_b = [colour for _, colour in sorted(occurences)]
             g.edge(str(node_a), str(node_b), label=str(colour))
         else:
-- 
2.43.0


From 8fdc29e56d60011e2ebe885b554d25bfa42aa9cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 27/32] fix: render stopped with a TypeError on inserters

---
 factorio_sat/render.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index 34fdd2e..fe79f9e 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -153,7 +153,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
         if layer == RenderLayer.BOTTOM:
             glPushMatrix()
             glTranslatef(-(8 + 1.5)/32, (8 - (7.5 - 1))/32, 0)
-            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction) % 4, 0)
+            tilemaps.INSERTER_PLATFORM[tile.type].render((1 - tile.direction.value) % 4, 0)
             glPopMatrix()
         elif layer == RenderLayer.TOP:
             # Good enough
@@ -176,7 +176,7 @@ def render_tile(tile: BaseTile, animation: int, layer: RenderLayer):
             if t < 0:
                 interior_angle *= -1
 
-            base_angle = 90 * (2 - tile.direction) + interior_angle
+            base_angle = 90 * (2 - tile.direction.value) + interior_angle
 
             glPushMatrix()
 
-- 
2.43.0


From d270d4d251cf1a40eff6f04cb7f36512e046ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 28/32] fix: render --show-raw failed on an index into an
 attribute

---
 factorio_sat/render.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/factorio_sat/render.py b/factorio_sat/render.py
index fe79f9e..db63c1c 100644
--- a/factorio_sat/render.py
+++ b/factorio_sat/render.py
@@ -350,7 +350,7 @@ def render_attributes(solution, font, names: List[str]):
                 sub_item = item
                 for piece in name.split('.'):
                     try:
-                        sub_item = item[int(piece)]
+                        sub_item = sub_item[int(piece)]
                         continue
                     except ValueError:
                         pass
-- 
2.43.0


From eed84b86fa03172943d346ab64f6d7d1b29b49d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 29/32] fix: fetch_assets failed on recipes with current
 luaparser

It gives no key to positional fields, and strings as bytes.
---
 factorio_sat/assets/fetch.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index 5220546..98856e9 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -65,8 +65,12 @@ def decode_lua_data(text):
     def recurse(node):
         if isinstance(node, ast.Table):
             result = {}
+            position = 0
             for field in node.fields:
-                if isinstance(field.key, ast.Number):
+                if field.key is None:
+                    position += 1
+                    key = position
+                elif isinstance(field.key, ast.Number):
                     key = field.key.n
                 elif isinstance(field.key, ast.Name):
                     key = field.key.id
@@ -78,7 +82,7 @@ def decode_lua_data(text):
             except KeyError:
                 return result
         elif isinstance(node, ast.String):
-            return node.s
+            return node.s.decode() if isinstance(node.s, bytes) else node.s
         elif isinstance(node, ast.FalseExpr):
             return False
         elif isinstance(node, ast.TrueExpr):
-- 
2.43.0


From f5d73b21f57c32e15a87bbe7b8263bdf29c9af44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 30/32] fix: fetch_assets ignored the time of recipes that only
 have a normal variant

---
 factorio_sat/assets/fetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/factorio_sat/assets/fetch.py b/factorio_sat/assets/fetch.py
index 98856e9..8e5f7da 100644
--- a/factorio_sat/assets/fetch.py
+++ b/factorio_sat/assets/fetch.py
@@ -105,11 +105,11 @@ def get_recipes_for_variant(data, variant):
         if variant in entry:
             entry = entry[variant]
 
-        time = entry.get('energy_required', time)
-
         if 'ingredients' not in entry and ('result' not in entry or 'results' not in entry):
             entry = entry['normal']
 
+        time = entry.get('energy_required', time)
+
         ingredients = []
         for item in entry['ingredients']:
             if isinstance(item, list):
-- 
2.43.0


From 9e9bb45853798affe006077980c3bb653e9e1d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:48 +0000
Subject: [PATCH 31/32] fix: compute dropped the stored results of networks
 that are not in the networks folder

---
 factorio_sat/calculate_optimal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/factorio_sat/calculate_optimal.py b/factorio_sat/calculate_optimal.py
index b6cf533..8ba7e76 100644
--- a/factorio_sat/calculate_optimal.py
+++ b/factorio_sat/calculate_optimal.py
@@ -271,6 +271,7 @@ def main():
     for file in os.listdir(base_path):
         stores.append(NetworkSolutionStore(os.path.join(base_path, file)))
 
+    data = {}
     try:
         with open(result_file) as f:
             data = json.load(f)
@@ -283,7 +284,7 @@ def main():
         pass
 
     def save_progress():
-        data = {}
+        # Results of networks that aren't in the networks folder are kept
         for store in stores:
             data[store.network_name] = store.to_json()
         temporary_file = result_file + '.tmp'
-- 
2.43.0


From 7374f9db6b33911ae3da81bd3ffd90683e134ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 32/32] fix: network flip emptied its input when told to write
 to the same file

---
 factorio_sat/network.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/factorio_sat/network.py b/factorio_sat/network.py
index cd0551f..3704569 100644
--- a/factorio_sat/network.py
+++ b/factorio_sat/network.py
@@ -706,7 +706,7 @@ def main():
 
     flip_parser = subparsers.add_parser('flip', help='Flips a network around (e.g 3 to 4 network -> 4 to 3 network)')
     flip_parser.add_argument('input_network', type=argparse.FileType('r'), help='Input network destination')
-    flip_parser.add_argument('output_network', type=argparse.FileType('w'), help='Output network destination')
+    flip_parser.add_argument('output_network', type=str, help='Output network destination')
 
     render_parser = subparsers.add_parser('render', help='Render a belt balancer network')
     render_parser.add_argument('network', type=argparse.FileType('r'), help='Network to render')
@@ -753,8 +753,9 @@ def main():
         else:
             assert False
 
-        with args.output_network:
-            save_network(args.output_network, out_network)
+        # Opened only now, as it may be the same file as the input
+        with argparse.FileType('w')(args.output_network) as output_network:
+            save_network(output_network, out_network)
 
 
 if __name__ == '__main__':
-- 
2.43.0

