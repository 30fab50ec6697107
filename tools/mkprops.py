"""Writes properties.jsonl (kept as the single source of its text)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': ['factorio_sat/' + f for f in files],
                          'state': state or [],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': hook}})

p('C01', 'The belt encoder accepts an arrangement exactly when it is legal',
  'For every grid size, edge mode (open or wrapped per axis), choice of blocked edges and maximum underground length, a fully pinned arrangement of empty tiles, belts, underground ends and splitters is satisfiable if and only if it is legal: every belt output meets a matching input and vice versa, splitters are whole and have no half facing the side or front of a belt, underground ends pair up in order with at least one and at most the maximum number of tiles between them, and nothing crosses a blocked edge. When it is satisfiable, the layout read back from the solution is the pinned one.',
  ['inputs', 'configurations'], 'all arrangements of all sizes, over edge modes, blocked-edge tuples and underground limits (including unlimited)',
  'The existing grid tests pin a few dozen hand-drawn fragments; the accepted set is exponential in the area and depends on size, limit, orientation and edge mode.',
  ['solver.py', 'template.py'],
  [('tile and splitter clauses', 'solver.py Grid.__init__'), ('connection rules', 'solver.py prevent_intersection'), ('underground rules', 'solver.py prevent_bad_undergrounding, enforce_maximum_underground_length'), ('edge rules', 'solver.py block_belts_through_edges, block_underground_through_edges'), ('wrapping', 'template.py get_tile_instance_offset'), ('read back', 'solver.py set_tile/read_tile')],
  ['Grid(...).set_tile(...) then check()/solve()'])
p('C02', 'Every layout belt_balancer prints realises the requested network',
  'Every layout printed by the network-driven balancer tool has the requested size, is legal within the requested underground limit, carries exactly as many input and output belts as the network (contiguous, entering and leaving on the sides and with the alignment that the options ask for, with the other end tiles empty unless the ends may be used), and lets nothing else cross its boundary. Its splitters, connected by its belts, form exactly the splitters of the requested network with the requested multiplicity, up to colours shared by interchangeable belts.',
  ['inputs', 'configurations'], 'all network files (shipped or generated, with unused splitter sides), sizes, underground limits, and end / pruning / symmetry option combinations',
  'The tests build a handful of 2x3 and 3x2 balancers and only look at whether a solution exists.',
  ['belt_balancer.py', 'solver.py', 'network.py', 'optimisations.py'],
  [('splitter counting and colour constraints', 'belt_balancer.py create_balancer'), ('ends', 'belt_balancer.py setup_balancer_ends, setup_balancer_ends_90, setup_balancer_ends_180'), ('colour transport', 'solver.py prevent_bad_colouring/transport_quantity')],
  ['stdout of belt_balancer'])
p('C03', 'Balancers made from balancing networks split every input evenly',
  'Whenever the splitter network describes a balancer, items entering any single input of a printed layout leave in equal shares on all outputs (splitters dividing their flow evenly among connected outputs, loops included). The network generator produces such a network for every size, and every network and blueprint shipped with the project satisfies it.',
  ['inputs', 'configurations'], 'all generated network sizes, all shipped networks and books, all layouts printed for them',
  'No test computes any flow; evenness is a linear-algebra fact about a whole layout, not about a sampled tile.',
  ['belt_balancer.py', 'network.py', 'solver.py'],
  [('Benes construction', 'network.py create_benes_network'), ('colour constraints', 'belt_balancer.py create_balancer')],
  ['stdout of belt_balancer', 'file written by network create', 'networks/', 'books/'])
p('C04', 'Network-free balancers are legal and split every input evenly',
  'Every layout printed by the network-free balancer tool has the requested size and numbers of contiguous straight input and output belts on its left and right edge, is legal within the underground limit, lets nothing cross the top or bottom, respects --aligned, and divides each input evenly over all outputs.',
  ['inputs', 'configurations'], 'all sizes, input and output counts and underground limits',
  'There is no test of this tool; correctness depends on bit-level flow arithmetic for every count.',
  ['belt_balancer_net_free.py', 'util.py', 'solver.py'],
  [('flow arithmetic clauses', 'belt_balancer_net_free.py create_n_to_n_balancer, create_n_to_m_balancer'), ('ends', 'belt_balancer_net_free.py setup_balancer_ends')],
  ['stdout of belt_balancer_net_free'])
p('C05', 'Power-of-two balancers become balancers once capped with splitters',
  'Every layout printed by the power-of-two tool is a legal layout of the requested size with straight belts on all rows of both ends, and after adding the first and last column of splitters (on row pairs) each input is divided evenly over all outputs.',
  ['inputs', 'configurations'], 'all widths, power-of-two sizes and underground limits',
  'The two tests of this tool check only that some solution exists.',
  ['belt_balancer_net_free_power_of_2.py', 'solver.py'],
  [('colour-bit merging at splitters', 'belt_balancer_net_free_power_of_2.py create_balancer')],
  ['stdout of belt_balancer_net_free_power_of_2'])
p('C06', 'Interchanges pair one belt of each half at every output pair',
  'Every layout printed by the interchange tool is a legal splitter-free layout of the requested size in which each of the left-edge belts leads to its own right-edge belt and each adjacent output pair receives one belt of the top half and one of the bottom half; with --alternating the halves alternate row by row, and with --rot-symmetry the layout is unchanged by a half turn with reversed flow.',
  ['inputs', 'configurations'], 'all widths, even heights, underground limits and option combinations',
  'There is no test of this tool.',
  ['interchange.py', 'solver.py'],
  [('end colours', 'interchange.py main'), ('half-turn symmetry', 'interchange.py require_rotational_symmetry'), ('edge transport counts', 'interchange.py require_correct_transport_through_edges')],
  ['stdout of interchange'])
p('C07', 'Belt blocks honour every option they are asked for',
  'Every block printed by make_block has the requested size, contains no splitters and no 2x2 belt loop within it, never tunnels further than the requested length (not at all for 0), is fully covered unless empty tiles are allowed, and is closed at its edges, or with --tile legal when repeated in both directions. With --single-loop all tiles lie on one loop, with --no-parallel no two underground segments run side by side, and the result goes to the output file when one is given.',
  ['inputs', 'configurations'], 'all sizes and option combinations',
  'There is no test of this tool.',
  ['make_block.py', 'solver.py', 'optimisations.py'],
  [('loop numbering', 'make_block.py ensure_loop_length'), ('parallel ban', 'make_block.py prevent_parallel'), ('edge handling', 'make_block.py main')],
  ['stdout or output file of make_block'])
p('C08', 'Exhaustive search prints every solution exactly once, and then stops',
  'With --all and none of the pruning options, the tools print every layout that satisfies the request exactly once (apart from layouts with a tunnel under nothing but empty tiles, which are always skipped) and then end; printing nothing means that no such layout exists, and without --all exactly one is printed when any exists.',
  ['inputs', 'configurations', 'histories'], 'all requests; decided by comparing with brute-force enumeration on small sizes and by re-posing known solutions on large ones',
  'Tests check satisfiability of single instances; completeness quantifies over all layouts.',
  ['template.py', 'solver.py', 'belt_balancer.py', 'make_block.py', 'interchange.py'],
  [('blocking clauses over the distinguishing variables', 'template.py itersolve, solver.py itersolve'), ('end offsets', 'belt_balancer.py setup_balancer_input/output')],
  ['stdout of the generator tools with --all'])
p('C09', 'A partial layout given to a tool is kept in every result',
  'When a partial layout (as a blueprint string, whose occupied rectangle starts at the top-left tile, or as solver output) is supplied, every printed layout contains each of its non-empty tiles unchanged at the same position, tiles it marks as otherwise occupied stay empty, its empty tiles constrain nothing, and the results are exactly those unconstrained results that contain it.',
  ['inputs'], 'all partial layouts in both formats, for all tools with --partial',
  'No test uses --partial.',
  ['belt_balancer.py', 'solver.py', 'blueprint.py', 'belt_balancer_net_free.py', 'belt_balancer_net_free_power_of_2.py', 'interchange.py'],
  [('pinning', 'belt_balancer.py set_nonempty_tiles, solver.py set_tile'), ('format detection', 'blueprint.py convert_to_tiles')],
  ['stdout of the tools with --partial'])
p('C10', 'Pruning options discard only layouts with the documented pattern',
  'Each search-pruning rule (splitter gluing, underground expansion, merging and emptiness, hooks, semicircles, small loops, zigzags, belts parallel to splitters, doubled edge belts, edge splitters) rejects a legal layout if and only if that layout contains the pattern the rule describes, wherever it lies and however it is turned or mirrored, apart from the stated exemption of the end columns. Pruning never makes an illegal layout acceptable.',
  ['inputs', 'configurations'], 'all legal layouts, positions, orientations and underground limits',
  'Tests hold a few drawn examples per rule, in one position and mostly without a near miss.',
  ['optimisations.py', 'belt_balancer.py'],
  [('pattern clauses', 'optimisations.py'), ('edge rules', 'belt_balancer.py prevent_double_edge_belts, enforce_edge_splitters')],
  ['Grid with a rule applied and a layout pinned; stdout of belt_balancer with the options'])
p('C11', 'Symmetry breaking always keeps one of each mirror pair',
  'With symmetry breaking switched on, for every layout that satisfies the request, that layout or its mirror image (top to bottom) is still found, only one of the two if they differ outside the middle row, and no layout that violates the request appears.',
  ['inputs', 'configurations'], 'all layouts of all sizes',
  'No test covers symmetry breaking.',
  ['optimisations.py', 'util.py', 'belt_balancer.py'],
  [('lexicographic order clauses', 'util.py break_symmetry, optimisations.py break_vertical_symmetry')],
  ['belt_balancer --break-symmetry --all; Grid with the rule applied'])
p('C12', 'Arithmetic and counting encodings mean what they say',
  'For every bit width, operand value and number of literals, the clause builders for addition (with carry in and overflow policy), summation, increment, negation, popcount, equality, fixed values, value exclusion, maximum, unordered pairs, at-most-one, exactly-one and cardinality bounds are satisfiable by an assignment of their visible literals exactly when the named relation holds, using no literal beyond the given and allocated ones.',
  ['inputs'], 'all widths, values, and literal signs',
  'Tests cover only some builders at few widths.',
  ['util.py', 'cardinality.py'],
  [('clause builders', 'util.py, cardinality.py')],
  ['clauses returned by the builders'])
p('C13', 'Encoding a layout as a blueprint and decoding it gives it back',
  'For every layout of belts, underground ends, splitters, inserters and filler whose belts curve as their neighbours dictate, encoding to a blueprint string and decoding returns the same layout cropped to its occupied rectangle (filler counts as empty), for every belt level and label; the string carries the requested label, the level\'s entity names, one entity per belt, underground end and whole splitter, and distinct entity numbers.',
  ['inputs'], 'all layouts, labels (any Unicode) and belt levels; any number of layouts per run',
  'There is no test of blueprint encoding.',
  ['blueprint.py', 'direction.py', 'tile.py'],
  [('export', 'blueprint.py make_blueprint/encode_blueprint'), ('import', 'blueprint.py decode_blueprint/import_blueprint')],
  ['stdin/stdout of blueprint encode and decode'])
p('C14', 'Blueprint import reproduces the geometry of any entity list',
  'For every blueprint made of supported entities without overlap, at any offset (negative included), in any order, with any orientation and tier, the imported grid is the bounding rectangle of the occupied tiles with each entity\'s tiles at its own place, splitters and assembling machines covering all their tiles, and each belt bent exactly when its only feeder comes from one side; an unsupported entity or format version is reported as an error.',
  ['inputs'], 'all entity lists',
  'There is no test of blueprint import.',
  ['blueprint.py', 'direction.py'],
  [('placement', 'blueprint.py import_blueprint'), ('belt bending', 'blueprint.py resolve_belt_input_directions')],
  ['stdout of blueprint decode'])
p('C15', 'Blueprint books keep every blueprint, in order',
  'Packing any sequence of blueprints into a book and unpacking it returns the same blueprints in the same order, apart from the position number that packing adds, and the book carries the given label; packing does not alter its inputs, and unpacking any book (nested ones included) prints its entries in order.',
  ['inputs'], 'all blueprint sequences and labels',
  'There is no test of books.',
  ['blueprint_book.py', 'blueprint.py'],
  [('pack/unpack', 'blueprint_book.py pack_book, unpack_book')],
  ['stdin/stdout of blueprint_book'])
p('C16', 'Text pictures of layouts convert back to the same layout',
  'For every layout of empty, filler, belt, underground and splitter tiles the text picture has one framed row per layout row, uses a different character for each tile kind and orientation, and decoding it gives back the same layout; several layouts in one stream keep their order.',
  ['inputs'], 'all layouts and streams',
  'The tests decode pictures but never check the inverse or the distinctness of all tiles.',
  ['stringifier.py', 'tile.py'],
  [('tables and framing', 'stringifier.py encode/decode')],
  ['stdin/stdout of stringifier'])
p('C17', 'Rotating or flipping a layout is the physical turn of that layout',
  'For every layout each rotate operation moves every tile and turns its directions, splitter halves, inserters and multi-tile machines consistently, so that a legal layout stays legal with the same connections; four quarter turns, or two identical flips, give the original back, half and three-quarter turns equal repeated quarter turns, and all other data of a cell travels with it.',
  ['inputs'], 'all layouts and operation sequences',
  'Tests rotate only balancer requests, not layouts; the rotate tool is untested.',
  ['rotate.py', 'tile.py', 'direction.py'],
  [('tile transforms', 'tile.py TransformableTile'), ('grid transforms', 'rotate.py Operation')],
  ['stdin/stdout of rotate'])
p('C18', 'Network files and network transformations preserve the graph',
  'Reading a written network gives the same network (unused sides, comments and blank lines included); flipping reverses every connection and twice is the identity; renumbering and tidying colours give an isomorphic network whose colours are consecutive with those that only enter first and those that only leave last; malformed lines are rejected.',
  ['inputs', 'histories'], 'all networks',
  'There is no test of the network tool.',
  ['network.py'],
  [('file format', 'network.py open_network/save_network'), ('transformations', 'network.py flip_network, fix_colours, tidy_network, deduplicate_network, get_input_output_colours')],
  ['files read and written by network'])
p('C19', 'Parsing a layout recovers the splitter network it implements',
  'For every legal layout of belts, underground belts and splitters (other tiles allowed around them), the network read from it has one node per splitter with a connection wherever belts physically join two splitters, unused sides where nothing is attached, and the outside connections as inputs and outputs.',
  ['inputs'], 'all legal layouts; in particular every shipped balancer',
  'There is no test of network parsing.',
  ['network.py'],
  [('tracing', 'network.py parse_network')],
  ['file written by network parse'])
p('C20', 'The optimal search returns the true optimum and never contradicts itself',
  'For every pattern of which sizes admit a balancer (growing any dimension never destroys one), computing tries only undecided sizes, ends, and leaves a database from which the query returns a solution that is best for the objective among all admissible sizes; what the database implies about existence agrees with every answer recorded, compaction loses nothing, and unfinished networks are withheld unless imperfect results are asked for.',
  ['inputs', 'histories'], 'all monotone existence functions, objectives, underground lengths, and histories of runs',
  'There is no test of the optimal search.',
  ['calculate_optimal.py'],
  [('search order', 'calculate_optimal.py AreaObjective, LengthObjective'), ('inference', 'calculate_optimal.py NetworkSolutionStore')],
  ['database file and stdout of calculate_optimal compute/query'])
p('C21', 'The results database survives interruption at any point of a save',
  'If the optimal search is stopped, or a save fails, at any point, the database file afterwards is complete and readable and holds every result recorded by an earlier finished save, those of networks that are no longer in the networks folder included; a later run continues from it, and a missing database is the same as an empty one.',
  ['crash_points', 'histories'], 'all crash points within and between saves, over all histories of results',
  'No test writes a database; crash points cannot be sampled by a unit test.',
  ['calculate_optimal.py'],
  [('atomic replace', 'calculate_optimal.py save_progress'), ('load', 'calculate_optimal.py main')],
  ['database file'])
p('C22', 'Every solver back end gives the same verdict, and failures are not answers',
  'For every formula the built-in solvers, an external command (fed through a pipe or a file) and a loadable solver library give the same satisfiable/unsatisfiable verdict, a returned layout satisfies the request, and exhaustive search yields the same set; assumptions hold for one call only. An external solver or library that crashes, stops without an answer or reports an unknown status or malformed output raises an error and is never taken for "no solution".',
  ['inputs', 'configurations', 'fault_sequences'], 'all formulas, back ends and solver faults',
  'Tests use the default built-in solver only.',
  ['template.py', 'ipasir.py'],
  [('external command protocol', 'template.py run_command_solver'), ('library protocol', 'ipasir.py'), ('dispatch', 'template.py solve/itersolve')],
  ['Grid.solve/itersolve with cmd:, lib: and named solvers'])
p('C23', 'Serialised tiles read back as the same tile, old formats included',
  'Every tile written as solver output reads back as the same tile, layouts printed by one tool are accepted with the same meaning by the others, and cells without a tile entry (older outputs) are read from their direction and type fields as the same tile; a belt that would enter and leave on the same side is refused.',
  ['inputs'], 'all tiles and all cell formats',
  'No test reads or writes serialised tiles.',
  ['tile.py', 'blueprint.py', 'solver.py'],
  [('tile read/write', 'tile.py'), ('cell reader', 'blueprint.py read_tile')],
  ['stdout of one tool piped into another'])
p('C24', 'The cross table shows what the database implies, and keeps its preamble',
  'Exporting the cross table writes, for each network with results and in numeric order, one cell per size that shows the lowest belt level known to suffice, "impossible" only where a negative answer is known, and "unknown" where nothing is known; text before the table section is kept and exporting again changes nothing.',
  ['inputs', 'histories'], 'all databases and prior file contents',
  'No test exports a cross table.',
  ['calculate_optimal.py'],
  [('export', 'calculate_optimal.py export_crosstable')],
  ['file written by calculate_optimal export-crosstable'])
p('C25', 'Variable templates give every tile its own variables and read them back',
  'For every template built from the available parts (flags, one-hot and many-hot choices, signed and unsigned numbers, arrays, nested groups and derived fields) and grid size, every tile and field gets its own variables, as many as announced, derived fields refer to the variables they name, and decoding a model returns exactly the values it assigns; neighbour lookups and line and block iteration follow the edge mode and bounds.',
  ['inputs', 'configurations'], 'all template trees, grid sizes, edge modes and models',
  'No test exercises templates beyond the one fixed tile.',
  ['template.py', 'util.py'],
  [('instantiate/parse', 'template.py *Template'), ('lookups', 'template.py BaseGrid iterate_tile_lines, iterate_tile_blocks, get_tile_instance_offset')],
  ['BaseGrid with a custom template'])

p('C26', 'The renderer shows and exports every layout as it is',
  'For every stream of layouts the renderer draws each non-empty tile at its own place with the sprite of its kind, orientation and animation frame (belts below tunnel entrances and splitters), gives tiles and shown tunnels of the same colour the same tint and different colours different ones (all white with --hide-colour, one tint per colour in all layouts with --colour-count), marks exactly the tunnels and attributes asked for, in a window of the requested cell size and padding. --export-all writes each layout once, in order, as a complete upright animation named by its position, and ends; the keys step through the layouts, save the one shown and print its blueprint; an empty stream is reported.',
  ['inputs', 'histories'], 'all streams of layouts, options and key sequences',
  'No test covers the renderer.',
  ['render.py', 'tilemaps.py'],
  [('drawing', 'render.py render_tile, render_solution, render_attributes; tilemaps.py Tilemap.render'), ('loop', 'render.py main, export_video')],
  ['render (stdin, options, keys)'])
p('C27', 'Drawing a network shows its graph and touches nothing else',
  'For every network with one input and one output colour, network render writes to the requested file, in the format of its name, a graph with one node per splitter and exactly the connections of the network (each colour leads from the splitters that put it out to those that take it in, the input colour from the start, the output colour to the end), and no other file is written, changed or removed.',
  ['inputs', 'configurations'], 'all networks and output names',
  'No test covers network rendering.',
  ['network.py'],
  [('plot', 'network.py plot, get_input_output_colours'), ('tool', 'network.py main render')],
  ['network render'])
p('C28', 'Fetching assets brings all sprites and the right recipes',
  'For every game installation fetch_assets copies each sprite sheet the renderer opens, unchanged, to where the renderer looks for it, and writes for the normal and the expensive variant exactly the recipes of the crafting categories, each with the time, ingredients and results of that variant (those of the normal variant where it has none of its own, 0.5 s and one item where nothing is said), in every form the recipe files use.',
  ['inputs'], 'all recipe files of the documented forms',
  'No test covers it.',
  ['assets/fetch.py', 'tilemaps.py'],
  [('copy', 'assets/fetch.py fetch_tilemaps; tilemaps.py init'), ('recipes', 'assets/fetch.py decode_lua_data, get_recipes_for_variant')],
  ['fetch_assets'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for q in P:
        f.write(json.dumps(q) + '\n')
print(len(P))
