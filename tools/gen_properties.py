#!/usr/bin/env python3
"""writes /verif/properties.jsonl (the single place the property texts are kept)"""
import json, os
P = []
K = 'klayout_pex/'
def p(id, title, statement, over, q, why, files, mech, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)))

p('C01', 'Overlap capacitance equals unshielded facing area times tech coefficient',
  "For every pair of different nets (and the substrate), the extracted 2.5D overlap (area) capacitance between two conductor layers equals the area over which they face each other with no other conductor in between, times the technology's area coefficient for that layer pair. A conductor lying in between shields whatever net it belongs to; layer pairs without a coefficient contribute nothing and do not disturb any other layer pair.",
  ['inputs', 'configurations'], 'all layouts (Manhattan and angled polygons, any net assignment, any set of layers incl. MiM plates), all supported PDKs, any side halo',
  'The rcx25 tests sample a dozen hand-drawn test structures, mostly one overlap each, and need a KLayout executable; the rule quantifies over all shapes, shield combinations and layer sets.',
  [K+'rcx25/c/overlap_extractor.py', K+'rcx25/extractor.py', K+'tech_info.py'],
  [('OverlapExtractor.extract', K+'rcx25/c/overlap_extractor.py'), ('RCX25Extractor.extract_cell', K+'rcx25/extractor.py')],
  ['CellExtractionResults.overlap_table after kpex --2.5D', '*_k25d_pex_netlist.csv'])
p('C02', 'Sidewall capacitance equals facing length x coefficient / distance',
  "For every pair of different nets on one layer, the extracted sidewall capacitance is the sum over directly facing edge stretches closer than the side halo of length x coefficient / (distance + offset). Edge stretches that are hidden behind another shape of the same layer, or behind the shape's own body, and shapes of the same net contribute nothing; each pair is counted once, not once per side.",
  ['inputs', 'configurations'], 'all Manhattan layouts (bars, L, U and ring shapes, any gap down to one grid step), all layers of all supported PDKs, any halo',
  'Tests cover two parallel bars and a few nets; facing-edge search has per-edge interval logic with halo cut-offs, shielding and duplicate suppression whose correctness depends on the geometry.',
  [K+'rcx25/c/sidewall_and_fringe_extractor.py', K+'rcx25/c/geometry_restorer.py', K+'rcx25/c/polygon_utils.py'],
  [('FringeEdgeNeighborhoodVisitor', K+'rcx25/c/sidewall_and_fringe_extractor.py')],
  ['CellExtractionResults.sidewall_table after kpex --2.5D'])
p('C03', 'Fringe capacitance follows the arctan halo model with shielding',
  "The extracted fringe (side-overlap) capacitance from an edge to a conductor or substrate of another layer equals edge length x perimeter/side-overlap coefficient x the arctan-distributed share of the halo that is visible from the edge, i.e. up to the nearest shape of the edge's own layer and not covered by a conductor in between. The --scale option rescales exactly by the share of the full halo, and no fringe exists between shapes of one net.",
  ['inputs', 'configurations'], 'all Manhattan layouts, layer stacks of all supported PDKs, any halo, with and without scaling',
  'Tests check a few structures against golden CSVs within a tolerance; the windows depend on every polygon around each edge, on the halo, and on shielding by any layer in between.',
  [K+'rcx25/c/sidewall_and_fringe_extractor.py', K+'rcx25/types.py', K+'rcx25/extraction_results.py'],
  [('emit_fringe', K+'rcx25/c/sidewall_and_fringe_extractor.py'), ('shielding regions', K+'rcx25/c/sidewall_and_fringe_extractor.py')],
  ['CellExtractionResults.sideoverlap_table after kpex --2.5D'])
p('C04', '2.5D result does not depend on how the layout is written down',
  "The 2.5D capacitance result per net pair is unchanged when the same physical layout is translated, rotated by 90 degrees, mirrored, split into abutting or overlapping pieces, pushed into subcells, reordered, mixed with unrelated far-away geometry or has its nets renamed consistently. Running the same input twice gives identical results.",
  ['inputs', 'histories'], 'all layouts, all 8 orthogonal orientations, arbitrary displacement, polygon decomposition, hierarchy and insertion order; repeated runs in one process and under different hash seeds',
  'Each test runs one fixed GDS once in one orientation and one decomposition; invariance is a statement about pairs of runs.',
  [K+'rcx25/extractor.py', K+'rcx25/c/overlap_extractor.py', K+'rcx25/c/sidewall_and_fringe_extractor.py', K+'klayout/lvsdb_extractor.py'],
  [('merged regions with net properties', K+'klayout/lvsdb_extractor.py'), ('edge neighborhood visitor', K+'rcx25/c/sidewall_and_fringe_extractor.py')],
  ['extraction summary per net pair'])
p('C05', 'All 2.5D output files tell the same story',
  "Every capacitance of the extraction appears exactly once, with the same value up to print rounding and in the right unit, in the summary, the CSV netlist, the SPICE netlist and the report database. The expanded netlist keeps the (flattened) original circuit's devices, pins and connectivity and adds exactly one capacitor per coupled net pair, connected to these two nets, plus exactly one resistor per resistance of the summary in R and RC mode.",
  ['inputs', 'configurations'], 'all layouts with and without devices and pins, all modes (CC, R, RC), all net names incl. unnamed nets, names with special characters, SPICE writer options',
  'Tests only compare the CSV of a few named-net structures; the SPICE and RDB outputs are never read back.',
  [K+'rcx25/netlist_expander.py', K+'rcx25/extraction_results.py', K+'klayout/netlist_csv.py', K+'rcx25/extraction_reporter.py', K+'kpex_cli.py'],
  [('RCX25NetlistExpander.expand', K+'rcx25/netlist_expander.py'), ('NetlistCSVWriter', K+'klayout/netlist_csv.py'), ('CellExtractionResults.summarize', K+'rcx25/extraction_results.py')],
  ['*_k25d_pex_netlist.csv', '*_k25d_pex_netlist.spice', '*_k25d_pex_report.rdb.gz'])
p('C06', 'Extracted resistances are physical: per net, positive and analytically right',
  "Wire resistance extracted between two ports of a straight wire is sheet resistance x squares, a via between two wires adds its via resistance divided by the number of cuts, and every resistance is positive and finite. Two ports are connected through the resistor network exactly if they belong to the same net, and every pin and device terminal on a conductor of the net takes part.",
  ['inputs', 'configurations'], 'all layouts of wires, vias, pins and devices on every conductor level of the supported PDKs, R and RC modes',
  'Tests extract four structures on a few levels; missing via or label table rows on other levels stay invisible, and connectivity is a statement over all nets.',
  [K+'rcx25/r/r_extractor.py', K+'klayout/rex_core.py', K+'klayout/lvsdb_extractor.py', 'cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp'],
  [('RExtractor.prepare_request', K+'rcx25/r/r_extractor.py'), ('RExtractor.extract', K+'rcx25/r/r_extractor.py')],
  ['CellExtractionResults.r_extraction_result', 'CSV and SPICE resistors'])
p('C07', 'Resistor network elimination preserves effective resistance between ports',
  "Adding resistors in parallel, eliminating nodes (in any order, whichever nodes are marked precious) and joining two nodes change a ResistorNetwork only as the electrical network would: the effective resistance between any two remaining nodes stays what it was (or, when two nodes are joined, what shorting them gives). Precious nodes are never eliminated, eliminate_all leaves no other node with resistors, unconnected nodes stay unconnected, and the bookkeeping tables stay consistent. Splitting a skinny triangle covers exactly the same area with triangles that are not obtuse.",
  ['inputs', 'histories'], 'all resistor graphs (parallel resistors, dead ends, separate components), all sequences of operations and elimination orders; all triangles',
  'No test exercises it; the star-mesh transform is applied in a data-dependent order to arbitrary networks.',
  [K+'rcx25/r/resistor_network.py', K+'rcx25/r/conductance.py'],
  [('ResistorNetwork.eliminate_node/eliminate_all', K+'rcx25/r/resistor_network.py'), ('ResistorNetwork.expand_skinny_tris', K+'rcx25/r/resistor_network.py'), ('Conductance', K+'rcx25/r/conductance.py')],
  ['effective resistance computed from the conductance Laplacian before and after every step'])
p('C08', 'FasterCap 3D geometry is a faithful closed surface of the layout',
  "The panels generated for each conductor net and each dielectric enclose exactly the extruded volume the layout, the heights and the sidewall thicknesses prescribe: together they are watertight, consistently oriented, without duplicates or degenerate panels. No surface between two materials is missing or assigned to the wrong pair of permittivities.",
  ['inputs', 'configurations'], 'all layer stacks, heights, permittivities, Manhattan and angled polygons, delaunay settings (max area, bound), conductor/dielectric interface sets',
  'Unit tests generate nine fixed geometries and mostly only check that generation ends; volume, closure and orientation hold over every polygon arrangement or not at all.',
  [K+'fastercap/fastercap_model_generator.py'],
  [('FasterCapModelBuilder.generate / FasterCapModelGenerator.process', K+'fastercap/fastercap_model_generator.py')],
  ['generated triangles per material pair', '.lst/.geo files'])
p('C09', 'FasterCap input files describe the extracted layout and technology',
  "For every conductor net with geometry the written .lst/.geo set contains exactly one conductor, at the z positions, thicknesses, permittivities and in-plane extents of the technology, and files referenced by the list exist and are in sync with it. Different nets never share a conductor or file name, and every conductor name maps back to its net.",
  ['inputs', 'configurations'], 'all layouts and net names, both PDKs, dielectric filter settings, delaunay options, precision',
  'Tests never read the written input files of a full flow.',
  [K+'fastercap/fastercap_input_builder.py', K+'fastercap/fastercap_model_generator.py', K+'kpex_cli.py'],
  [('FasterCapInputBuilder.build', K+'fastercap/fastercap_input_builder.py'), ('FasterCapModelGenerator.write_fastcap', K+'fastercap/fastercap_model_generator.py')],
  ['FasterCap_Input_Files/*.lst, *.geo'])
p('C10', 'Solver output is parsed and stored without loss',
  "Whatever capacitance matrix a FasterCap or FastCap run prints, the parsed matrix has the same dimension, the same conductor names in the same order and the same entries in the unit used downstream, taking the matrix of the last iteration in the log; a log whose last matrix is missing or incomplete is refused. Writing a matrix to CSV and reading it returns the same matrix, and the averaged matrix is the symmetric part with the same diagonal.",
  ['inputs'], 'all matrix sizes, magnitudes, number formats, log prefixes, iteration counts and truncated logs',
  'Unit tests parse one FasterCap log and one FastCap log.',
  [K+'fastercap/fastercap_runner.py', K+'fastcap/fastcap_runner.py', K+'common/capacitance_matrix.py'],
  [('fastercap_parse_capacitance_matrix', K+'fastercap/fastercap_runner.py'), ('fastcap_parse_capacitance_matrix', K+'fastcap/fastcap_runner.py'), ('CapacitanceMatrix', K+'common/capacitance_matrix.py')],
  ['parsed CapacitanceMatrix', 'raw and averaged matrix CSV files'])
p('C11', 'Netlist expansion turns the Maxwell matrix into the equivalent capacitors',
  "The expanded netlist of the field-solver flows contains, for each conductor pair, one capacitor of minus the off-diagonal matrix entry between the two nets, and for each conductor one capacitor to ground (the substrate, which is conductor 0 and shorted to ground) that makes up the row sum, so that the netlist's Maxwell matrix is the given one; only couplings that are not positive are left out. Original devices (unless whiteboxed), pins and connectivity are preserved, an existing substrate or ground net is used rather than doubled, and nothing else is added. The CSV netlist lists exactly these capacitors.",
  ['inputs'], 'all matrices (any size, order of conductors, tiny or zero couplings), all netlists (with devices, unnamed nets, with or without ground net)',
  'The unit test expands one matrix and checks no values.',
  [K+'klayout/netlist_expander.py', K+'common/capacitance_matrix.py'],
  [('NetlistExpander.expand', K+'klayout/netlist_expander.py')],
  ['expanded SPICE/CSV netlists of kpex --fastercap / --fastcap'])
p('C12', 'Netlist reduction keeps the electrical behaviour',
  "Reducing an expanded netlist combines parallel resistors and capacitors of one device class and drops capacitors whose combined value is below the threshold, and does nothing else: with threshold zero the admittance between any nets stays the same, other devices are untouched, no net or pin gets lost, and the netlist given is not modified. Reducing twice changes nothing more.",
  ['inputs'], 'all netlists with parallel, reversed, self-shorted and dangling R/C devices and other devices',
  'The unit test reduces one netlist and checks no values.',
  [K+'klayout/netlist_reducer.py'],
  [('NetlistReducer.reduce', K+'klayout/netlist_reducer.py')],
  ['reduced kdb.Netlist', '*_Reduced_Netlist.cir'])
p('C13', 'The LVS cache never serves a database of other inputs',
  "Whatever sequence of runs, input edits, cache hits and failures came before, the parasitics of a run are those of the layout, schematic and LVS setup given to that run. A cache hit gives the same result as a cold run with the cache disabled.",
  ['histories', 'fault_sequences'], 'all sequences of runs over changed layouts, schematics, cells, scripts, PDKs, output dirs, with cache on or off, interrupted LVS runs, corrupted cache entries',
  'No test runs kpex twice on one output directory.',
  [K+'kpex_cli.py', K+'klayout/lvs_runner.py'],
  [('KpexCLI.create_lvsdb cache', K+'kpex_cli.py')],
  ['CSV result after each run of a history', 'calls recorded by a fake KLayout'])
p('C14', 'A failed external tool is never reported as success',
  "If KLayout LVS, FasterCap, FastCap or MAGIC fails, is killed, writes nothing or writes a truncated result, the kpex run ends with an error exit and no netlist, matrix or report is written from its missing, truncated or stale output (also if files of an earlier run exist). KLayout ending with a positive status after writing a complete database says that the netlists do not match, which is not a failure. If the tools succeed the run succeeds.",
  ['fault_sequences', 'crash_points'], 'each external tool x failure kind (nonzero exit, killed, silent without output, truncated or empty output, missing executable) x presence of stale outputs',
  'Tests never make an external tool fail.',
  [K+'kpex_cli.py', K+'klayout/lvs_runner.py', K+'fastercap/fastercap_runner.py', K+'fastcap/fastcap_runner.py', K+'magic/magic_runner.py'],
  [('return code handling in runners', K+'klayout/lvs_runner.py'), ('KpexCLI.create_lvsdb', K+'kpex_cli.py')],
  ['exit status and output files of kpex with fake tools'])
p('C15', 'The command line does what was asked, on the cell that was asked for',
  "Every accepted command line processes the requested top cell of the given file with the requested engines only, hands every option value to the tools as stated, and puts results under the requested output directory; impossible requests (missing or unreadable files, unknown or ambiguous cells, malformed or unknown options) end with an error message and nonzero status before any engine runs. Input files, the working directory and files of other runs are never changed. --gds takes precedence over --lvsdb.",
  ['inputs', 'configurations', 'histories'], 'all combinations of input kinds (GDS, LVSDB), cells, schematic, engines, PDK options, output dirs, several invocations in one process',
  'The CLI tests run one successful configuration each; validation paths are not executed.',
  [K+'kpex_cli.py', K+'util/argparse_helpers.py', K+'env.py', K+'pdk_config.py', K+'log/logger.py'],
  [('KpexCLI.parse_args / validate_args / setup_logging', K+'kpex_cli.py')],
  ['exit status, files under --out_dir, log file'])
p('C16', 'Technology data is deterministic, self-consistent and read as written',
  "The technology generator runs free of memory and undefined-behaviour errors, gives byte-identical output on every run, and fails if it cannot write. Its tables refer only to layers that exist (with the GDS numbers and names of the LVS decks), with physical positive values and a consistent stack (contacts end where the next metal begins, capacitances decrease with distance). The functions that build, write, read and convert technologies keep every value. The Python lookups return exactly what the technology file states, whatever it states, and do not change it.",
  ['configurations', 'inputs', 'histories'], 'all supported PDKs and output formats, repeated generation, all layers/GDS pairs of the tables, and randomly altered technology files',
  'Tests look up a few values of one PDK; the generator has no tests at all.',
  ['cxx/gen_tech_pb/main.cpp', 'cxx/gen_tech_pb/protobuf.cpp', 'cxx/gen_tech_pb/pdk/sky130A.cpp', 'cxx/gen_tech_pb/pdk/ihp_sg13g2.cpp', K+'tech_info.py'],
  [('gen_tech_pb', 'cxx/gen_tech_pb/main.cpp'), ('TechInfo cached lookups', K+'tech_info.py')],
  ['*_tech.pb.json', 'TechInfo properties'])
p('C17', 'Dielectric filters and choice patterns select exactly what they name',
  "A choice pattern (all, all,-x,-y, none, none,+x,+y) selects exactly the named dielectrics, independently of order, repetition and upper or lower case; contradictory patterns and subpatterns of another form are refused. A technology read with a filter contains exactly the selected dielectrics with everything else unchanged.",
  ['inputs', 'configurations'], 'all patterns over all dielectric names of both PDKs',
  'No test covers the patterns or the filter.',
  [K+'util/multiple_choice.py', K+'tech_info.py', K+'util/argparse_helpers.py'],
  [('MultipleChoicePattern.is_included', K+'util/multiple_choice.py'), ('TechInfo.filtered_dielectric_layers', K+'tech_info.py')],
  ['selected names', 'layers of the filtered TechInfo'])
p('C18', 'The MAGIC flow requests, parses and reports what was asked',
  "The generated MAGIC script carries every option of the command line and the requested cell and output paths, and the parsed .ext/.res.ext data contains every port, node, device, resistor node and resistor of the files with the names, coordinates, resistances and capacitances they state. The script is valid Tcl that names the requested files and cell whatever characters are in them. The report database contains each of the parsed objects at its coordinates.",
  ['inputs', 'configurations'], 'all MAGIC option combinations and modes, all node names, coordinates and number formats MAGIC writes, multi-cell ext trees',
  'Unit tests parse two ext files; the script and the reports are unchecked.',
  [K+'magic/magic_runner.py', K+'magic/magic_ext_file_parser.py', K+'magic/magic_log_analyzer.py', K+'magic/magic_ext_data_structures.py'],
  [('prepare_magic_script', K+'magic/magic_runner.py'), ('parse_magic_pex_run', K+'magic/magic_ext_file_parser.py')],
  ['generated Tcl script', 'parsed MagicPEXRun', 'RDB report'])
p('C19', 'netlistsvg JSON export is a faithful image of the netlist',
  "The JSON written for netlistsvg contains each device, subcircuit call and pin of the selected circuit exactly once, and two terminals carry the same net number exactly if they are on the same net. Device parameters shown match the netlist, and devices that cannot be drawn are refused rather than left out. The nets VSUBS and GND, and no others, carry a ground symbol. netlistsvg is run on exactly this file with the paths asked for, its output is in the log file, and its failure is reported as a failure.",
  ['inputs'], 'all netlists with R, C, subcircuit calls (repeated ones too), shared names, unnamed and unconnected nets, and other devices',
  'Two unit tests print the export of one netlist each.',
  [K+'netlistsvg/netlist_json.py', K+'netlistsvg/netlistsvg_runner.py', K+'netlist/netlist_cli.py'],
  [('NetlistJSONWriter', K+'netlistsvg/netlist_json.py')],
  ['JSON output'])
p('C20', 'Report repair makes reports loadable and loses no item',
  "Repairing a report database adds exactly the categories that its items refer to and that are missing: every item, category, cell, tag and value survives with its text unchanged, and the result loads. Repairing a healthy or already repaired report changes nothing of its content.",
  ['inputs'], 'all report databases with nested categories, special characters, multi-valued items, gzip or plain files',
  'No test covers the repair.',
  [K+'klayout/repair_rdb.py'], [('repair_rdb', K+'klayout/repair_rdb.py')], ['repaired .rdb content'])
p('C21', 'Geometry survives the protobuf conversion unchanged',
  "Points, edges, boxes and polygons converted to protobuf and back are the same geometry, including holes, net names and negative or large coordinates.",
  ['inputs'], 'all points, edges, boxes, simple and holed polygons, regions with properties',
  'The unit tests convert one instance of each.',
  [K+'klayout/shapes_pb2_converter.py'], [('ShapesConverter', K+'klayout/shapes_pb2_converter.py')], ['round-tripped kdb objects'])
p('C22', 'LVSDB preparation conserves geometry per net and layer',
  "The extraction context built from an LVS database contains for every conductor layer exactly the shapes the database holds, merged over all its source layers, labelled with the net they belong to. Devices' inner parts are removed only in blackbox mode and only for devices the technology names, and labels and pins are found for every layer.",
  ['inputs', 'configurations'], 'all layouts incl. hierarchy, unnamed nets, devices, MiM capacitors, blackbox on and off, both PDKs',
  'Tests look at the layer count of one database.',
  [K+'klayout/lvsdb_extractor.py', K+'tech_info.py', K+'kpex_cli.py'],
  [('KLayoutExtractionContext.prepare_extraction', K+'klayout/lvsdb_extractor.py')],
  ['shapes_of_layer / shapes_of_net / labels_of_layer / annotated layout'])
p('C23', 'The extraction summary is conservative and symmetric',
  "Summarizing an extraction takes every contribution exactly once into the result of its unordered net pair, whatever the order and orientation in which contributions were recorded: capacitances between the same two nets add up, resistances between the same two nodes combine in parallel. Nothing is dropped, doubled or attributed to another pair, and merging two summaries equals summarizing the union.",
  ['inputs', 'histories'], 'all multisets of overlap, sidewall, fringe and resistance contributions over any nets, in any insertion order',
  'The only test summarizes a single fixed result.',
  [K+'rcx25/extraction_results.py'], [('CellExtractionResults.summarize', K+'rcx25/extraction_results.py'), ('ExtractionSummary.merged', K+'rcx25/extraction_results.py')],
  ['ExtractionSummary tables'])
p('C24', 'The extraction report shows every contribution at its place',
  "The report database of a 2.5D run has one entry per extracted overlap, sidewall and fringe capacitance, and its geometry is that of the layout: the polygons and edges shown belong to the layer and net named, the overlap area lies in both polygons, sidewall edges face each other at the length and distance stated, fringe polygons lie in front of the edge and lateral shields begin at a conductor, and the capacitance stated follows from the geometry shown. Resistance requests and results are shown completely: technology, devices, terminals, pins, layer regions, nodes at their locations, and resistors between the nodes they connect with their value.",
  ['inputs', 'configurations'], 'all layouts, nets, devices and pins, extraction modes, halo and scaling options, log levels',
  'No test looks into the report.',
  [K+'rcx25/extraction_reporter.py', K+'rcx25/c/geometry_restorer.py', K+'rcx25/c/overlap_extractor.py', K+'rcx25/c/sidewall_and_fringe_extractor.py', K+'rcx25/extractor.py'],
  [('ExtractionReporter', K+'rcx25/extraction_reporter.py'), ('GeometryRestorer', K+'rcx25/c/geometry_restorer.py')],
  ['k25d_pex_report.rdb.gz'])
p('C25', 'All files of a run describe one circuit and one geometry',
  "The files a kpex run leaves behind agree. Of a field solver run: the raw matrix is the one the solver printed, the averaged matrix is its symmetric mean, the expanded SPICE netlist has one capacitor per coupling of the averaged matrix, the ground shorts, and the pins and (in blackbox mode) devices of the layout, the table lists exactly the capacitors of the netlist, and the reduced netlist has their parallel sums without those below the threshold. Each STL file is the closed outward-oriented surface of one conductor or dielectric, and together they have exactly the interfaces the solver is given. The layout dumps hold the shapes of the LVS database per layer and net. Engines run together give the same results as alone, also in a directory used before.",
  ['inputs', 'configurations', 'histories'], 'all layouts, nets, devices, matrices, dielectric selections, blackbox on and off, combinations of engines, used output directories',
  'No test runs a field solver or looks at matrices, netlists, surfaces or dumps of a run.',
  [K+'kpex_cli.py', K+'fastercap/fastercap_model_generator.py', K+'common/capacitance_matrix.py', K+'klayout/netlist_expander.py', K+'klayout/netlist_reducer.py', K+'klayout/netlist_csv.py'],
  [('KpexCLI', K+'kpex_cli.py'), ('dump_stl', K+'fastercap/fastercap_model_generator.py')],
  ['output directory of a run'])
p('C26', 'Runs do not disturb each other, and each leaves a complete record',
  "Any number of kpex runs can share an output directory and an LVS cache, at the same time or one after another, in one process or several: as long as they are about different layouts or cells, each ends with the exit status and the results it has when it runs alone. Each run leaves logs in its own directory with every message of the requested level and nothing of other runs, and with everything its tools printed, line by line; the logs of earlier runs are kept.",
  ['schedules', 'histories', 'configurations'], 'all interleavings of runs with other layouts or cells in shared output directories and caches, all sequences of runs, log levels, engines and tools that fail or print anything',
  'Tests run one extraction at a time in fresh directories and never read a log.',
  [K+'kpex_cli.py', K+'log/logger.py', K+'klayout/lvs_runner.py', K+'fastercap/fastercap_runner.py', K+'fastcap/fastcap_runner.py', K+'magic/magic_runner.py'],
  [('KpexCLI.setup_logging', K+'kpex_cli.py'), ('KpexCLI.create_lvsdb', K+'kpex_cli.py'), ('LVSRunner.run_klayout_lvs', K+'klayout/lvs_runner.py')],
  ['output directories, kpex.log, kpex_plain.log, exit status'])
p('C27', 'Helper scripts lose nothing: PDK conversion of layouts, LVS layer names',
  "convert_layout_pdk.py turns a layout of one technology into one of the other with every shape and text of every cell and layer at its place, in the database unit of the original: layers with a counterpart go to that counterpart, all others are kept under numbers of their own, and the input is left alone; what cannot be converted is refused with a message, and -l lists every layer of both technologies. lvs_layer_names.py lists exactly the layers an LVS log mentions, each once.",
  ['inputs'], 'all layouts of either technology (hierarchies, several top cells, texts, paths, unknown layers, any database unit), all LVS logs',
  'No test runs either script.',
  ['convert_layout_pdk.py', 'lvs_layer_names.py'],
  [('convert', 'convert_layout_pdk.py'), ('main', 'lvs_layer_names.py')],
  ['the written layout, the written Ruby script'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
