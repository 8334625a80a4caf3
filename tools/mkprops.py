"""Writes properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
B = "bpmn_python/"
REP, IMP, EXP, UT = B+"bpmn_diagram_rep.py", B+"bpmn_diagram_import.py", B+"bpmn_diagram_export.py", B+"bpmn_import_utils.py"
CSI, CSE, LAY = B+"bpmn_process_csv_import.py", B+"bpmn_process_csv_export.py", B+"bpmn_diagram_layouter.py"
MET, LM, VIS, CON = B+"bpmn_diagram_metrics.py", B+"diagram_layout_metrics.py", B+"bpmn_diagram_visualizer.py", B+"bpmn_python_consts.py"
DOM = ("Supported documents: any number of processes, nested sub-processes, events, the task kinds task/userTask/serviceTask/manualTask, "
       "the five gateway kinds, data objects, lanes, pools, message flows; at most one flow between two given nodes (the diagram identifies an edge by its two end nodes).")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})
NOASSERT = "The XML tests import and export a handful of example files and assert nothing about the content, so any silent loss passes."

p("C01", "XML import then export keeps every flow node and its attributes",
  "Importing any supported BPMN 2.0 XML file and exporting it with diagram data produces a file in which every flow node of the input occurs exactly once, inside the same process or sub-process, with the same id, kind and name, the same incoming and outgoing flow lists, and the same kind-specific attributes (default flow, gateway direction, instantiate and event gateway type, isInterrupting, parallelMultiple, cancelActivity, attachedToRef, triggeredByEvent, isCollection) and event definitions with their ids in document order. An optional attribute absent from the input is exported with its BPMN default or left out. No flow node that is not in the input appears in the output.",
  ["inputs"], "for every supported BPMN 2.0 XML document. " + DOM, NOASSERT,
  [IMP, EXP, REP], [("one import routine per node kind", IMP), ("export_node_data dispatch by kind", EXP)],
  ["load_diagram_from_xml_file", "export_xml_file", "the written file"])
p("C02", "XML import then export keeps every sequence flow and message flow",
  "Importing any supported BPMN 2.0 XML file and exporting it with diagram data keeps every sequence flow exactly once, in the same process or sub-process, with the same id, source, target, name and condition expression (id and text), and every message flow with the same id, name, source and target, whether it ends at a flow node or at a pool. A non-empty flow name is never replaced; a flow that has a condition but no name may be exported with the condition as its name. No flow is invented, reversed or moved between sequence flows and message flows.",
  ["inputs"], "for every supported BPMN 2.0 XML document. " + DOM, NOASSERT,
  [IMP, EXP], [("import_sequence_flow_to_graph / import_message_flow_to_graph", IMP), ("export_flow_process_data, message flow export", EXP)],
  ["load_diagram_from_xml_file", "export_xml_file", "get_flows", "the written file"])
p("C03", "XML import then export keeps processes, pools and the lane hierarchy",
  "Importing any supported BPMN 2.0 XML file and exporting it with diagram data keeps every process with its id, name, isClosed, isExecutable and processType (BPMN defaults where absent), the collaboration with its id, and every participant with its name and process reference. Lane sets keep their id and lanes, lanes keep their id, name, flow node references in order and nested child lane sets to any depth.",
  ["inputs"], "for every supported BPMN 2.0 XML document with any number of processes, pools and any lane nesting depth.", NOASSERT,
  [IMP, EXP], [("import_process_element, import_lane_set_element, import_participant_element", IMP), ("export_process_element, export_lane_set, export_lane", EXP)],
  ["load_diagram_from_xml_file", "export_xml_file", "the written file"])
p("C04", "XML import then export keeps the diagram interchange data",
  "Importing any supported BPMN 2.0 XML file and exporting it with diagram data keeps, for every flow node, participant and lane that has a shape, exactly one shape with the same x, y, width and height (and isExpanded for sub-processes, isHorizontal for pools and lanes), and, for every flow that has an edge, exactly one edge with the same waypoints in the same order; the ids and names of diagram and plane are kept. An element without diagram data is exported without failing and without an invented shape or edge.",
  ["inputs"], "for every supported BPMN 2.0 XML document; coordinates are arbitrary decimals, including negative and fractional ones, edges have two or more waypoints.", NOASSERT,
  [IMP, EXP], [("import_shape_di, import_flow_di", IMP), ("export_node_di_data, export_flow_di_data", EXP)],
  ["load_diagram_from_xml_file", "export_xml_file", "get_nodes_positions", "the written file"])
p("C05", "XML import is faithful whatever the lexical form of the file",
  "The diagram obtained by importing a BPMN 2.0 XML file contains exactly the supported elements of the file, with the values the file gives them and BPMN defaults for absent optional attributes. It depends only on the document's content: the namespace prefix, attribute order, indentation, comments, processing instructions, CDATA sections, character references, extension elements, and the order of elements inside a process do not change it. Flow references listed under a node and those only implied by a flow end up listed exactly once. The imported diagram replaces whatever the object held before.",
  ["inputs"], "for every supported document and every lexical rendering of it. " + DOM,
  "The tests load thirteen fixed files written by three editors; no test compares an imported diagram with the file.",
  [IMP, UT], [("iterate_elements, remove_namespace_from_tag_name", UT), ("load_diagram_from_xml", IMP)],
  ["load_diagram_from_xml_file", "get_nodes", "get_flows", "documented fields of the diagram object"])
p("C06", "Exporting a diagram built through the API writes all of it as valid XML",
  "For a diagram built through the diagram-building methods, the exported XML is well-formed, declares the BPMN model, DI, DC and DD-DI namespaces, and contains each process, node and sequence flow exactly once, in its own process, with every attribute and text (any characters XML allows) unescaping to the value the user supplied. Each node has one shape and each flow one edge with at least two waypoints, identifiers are unique, and every reference in the file names an element of the file.",
  ["inputs", "histories"], "for every sequence of diagram-building calls with at most one flow between two given nodes, and every XML-legal string used as a name or id.",
  "Two hand-built diagrams with plain ASCII names are exported, and the output is not inspected.",
  [REP, EXP], [("export_xml_file", EXP), ("add_*_to_diagram", REP)], ["add_*_to_diagram", "export_xml_file", "the written file"])
p("C07", "The export without diagram data holds the same model and no graphics",
  "The file written by the export without diagram data contains the same processes, lane sets, flow nodes, sequence flows, participants and message flows, with the same attributes and in the same containers, as the file written by the export with diagram data. It contains no diagram, plane, shape or edge element, and no element occurs twice.",
  ["inputs", "histories"], "for every diagram imported from a supported XML or CSV file or built through the API.", NOASSERT,
  [EXP], [("export_xml_file_no_di", EXP)], ["export_xml_file_no_di", "the written file"])
p("C08", "Node flow lists, graph edges and the flow table always agree",
  "After any successful sequence of imports and diagram-building calls, each sequence flow in the flow table has exactly one graph edge with the same id, source and target, both ends are nodes of the diagram, and the flow id is listed exactly once in the outgoing list of its source and the incoming list of its target. No node lists a flow that does not exist, starts or ends elsewhere, and every edge belongs to exactly one listed sequence or message flow.",
  ["histories", "inputs"], "for every history of building calls, XML imports and CSV imports, with at most one flow between two given nodes.",
  "No test looks at the relation between the three representations of a flow.",
  [REP, IMP, CSI], [("add_sequence_flow_to_diagram", REP), ("import_sequence_flow_to_graph", IMP), ("add_connection / remove_node", CSI)],
  ["get_nodes", "get_flows", "sequence flow table"],
  [{"name": "flow table, edges, incoming/outgoing lists", "meaning": "three redundant views of the flows", "where": REP}])
p("C09", "Diagram-building calls add exactly what was asked for",
  "Each diagram-building call adds exactly one process, node or flow with the kind, name, container and options given by the caller (documented defaults otherwise), returns its id together with the stored element, and leaves every other element unchanged. Generated ids are unique over everything created so far, an explicitly given id is used as is, and starting a new diagram discards all previous content.",
  ["histories", "inputs"], "for every sequence of building calls and every combination of their arguments.",
  "Tests use three or four argument combinations and never read the result back.",
  [REP], [("add_flow_node_to_diagram and the add_* methods", REP), ("create_new_diagram_graph", REP)], ["add_*_to_diagram", "create_new_diagram_graph", "get_node_by_id"])
p("C10", "A rejected call leaves the diagram unchanged",
  "A diagram-building call that is rejected with an error (an invalid gateway direction, a sequence flow whose source or target is not in the diagram, a new node with the id of an existing node, sequence flow or process) and a CSV export that is refused (not exactly one start) change neither the diagram nor an existing output file. The diagram can be used, exported and laid out afterwards as if the call had not been made.",
  ["histories", "fault_sequences"], "for every history with rejected calls at arbitrary points.",
  "No test makes an invalid call.",
  [REP, CSE], [("gateway direction check", REP), ("source/target check", REP), ("start node count check before the file is opened", CSE)],
  ["add_*_gateway_to_diagram", "add_sequence_flow_to_diagram", "export_csv_file"])
p("C11", "Queries return exactly the matching elements",
  "Querying nodes by kind, by process or by id, and flows by id or by process, returns exactly the elements of the diagram that match, each once, with their current attributes, and nothing for an unknown id. The nodes of all kinds together are all nodes, and node positions are reported for every placed node as numbers equal to the stored coordinates.",
  ["histories", "inputs"], "for every diagram reachable by imports and building calls, and every query argument.",
  "Queries are only exercised indirectly, on four example files, through the metrics tests.",
  [REP], [("get_nodes, get_nodes_list_by_process_id, get_node_by_id, get_nodes_id_list_by_type, get_flows, get_flow_by_id, get_flows_list_by_process_id, get_nodes_positions", REP)],
  ["all get_* methods"])
p("C12", "Exporting, measuring and drawing never change the diagram",
  "The XML, no-DI XML, CSV, DOT and PNG exports, all complexity and layout metrics and all queries leave every part of the diagram object unchanged. Repeating any of them in any order gives the same result as doing it first.",
  ["histories"], "for every diagram and every sequence of read-only operations on it.",
  "Tests never compare the diagram before and after, and run operations in one fixed order.",
  [EXP, CSE, MET, LM, VIS, REP], [("deepcopy of node data before consumption", CSE), ("deepcopy of waypoints and nodes", LM)],
  ["export_*", "metrics", "visualizer"])
p("C13", "Results do not depend on the run",
  "Importing a given file and exporting it as XML, no-DI XML or CSV, laying it out, or measuring it gives byte-identical files and equal values in every interpreter run, whatever the hash randomisation seed or locale. The order of the nodes of a process, of the flow table and of event definitions follows the source document.",
  ["schedules", "inputs"], "for every input file and every PYTHONHASHSEED.",
  "The test suite is run with one fixed hash seed and its output is not compared with anything.",
  [IMP, EXP, CSI, CSE, LAY], [("insertion-ordered containers; no iteration over sets", IMP)], ["exported files of separate interpreter runs"])
p("C14", "Diagram objects are independent of each other",
  "Work on one diagram object never affects another: any interleaving of building, importing, laying out, measuring and exporting on several diagram objects, in one thread or in concurrent threads with one diagram each, gives each diagram the result it has when handled alone.",
  ["histories", "schedules"], "for every interleaving of operations on several diagrams, single- or multi-threaded.",
  "Each test uses one diagram at a time in one thread.",
  [REP, IMP, CSI, LAY], [("all state lives in instance fields created per object", REP)], ["all public operations"])
p("C15", "CSV import turns every row into exactly one element",
  "Importing a process sheet creates for every row that is not a goto exactly one node, identified by its order label (surrounding spaces ignored), carrying the row's activity text as its name, and of kind start event for order 0, end event when Terminated is yes, sub-process when Subprocess is yes, task otherwise. Text is taken literally (numbers, NA, None, quotes, commas, Unicode), goto rows and sheet structure only add gateways, and no other node is created. The imported process replaces whatever the object held before.",
  ["inputs"], "for every well-formed process sheet: sequences, splits with any number of branches, nested splits, joins, gotos, terminations; any cell text.",
  "Three sheets are imported; the imported diagram is not inspected.",
  [CSI], [("import_csv_file_as_dict, import_nodes_info, get_node_type", CSI)], ["load_diagram_from_csv_file", "get_nodes"])
p("C16", "CSV import reproduces the control flow of the sheet",
  "In the imported diagram, ignoring gateways, an activity is followed directly by exactly those activities that follow it in the sheet: the next order number, the first row of each branch of the split that comes next, the row after the enclosing split when a branch ends, or the target of a goto; terminated rows are followed by nothing. Every gateway that remains splits or joins at least two flows, and every node except the start is entered.",
  ["inputs"], "for every well-formed process sheet, including branches of ten and more rows, deep nesting, order numbers of several digits and gotos in any branch.",
  "Three sheets are imported; the resulting flows are not inspected (the test notes that the CSV export has bugs).",
  [CSI], [("fill_graph_connections", CSI), ("remove_goto_nodes, remove_unnecessary_merge_gateways", CSI)], ["load_diagram_from_csv_file", "get_flows"])
p("C17", "CSV import keeps conditions and picks the matching gateway kind",
  "The condition of a row that starts a branch, or that is a goto, is the condition expression of the flow that enters it (for a goto, of the flow to its target), and no other flow has a condition. A split is exclusive if it has two branches with conditions yes/no or with an else, parallel if no branch has a condition, inclusive otherwise, and the gateway that joins its branches has the same kind.",
  ["inputs"], "for every well-formed process sheet and any condition texts.",
  "Three sheets are imported; gateway kinds and conditions are not inspected.",
  [CSI], [("get_gateway_type, get_merge_node_type, add_edge", CSI)], ["load_diagram_from_csv_file", "get_flows"])
p("C18", "CSV export lists every activity exactly once under a unique order label",
  "Exporting a block-structured process with one start (an event, or a task or sub-process nothing leads to) to CSV writes the six-column header and one row per start event, task, sub-process and end event, none missing and none repeated, with its name (prefixed by message or timer for such events), sub-process and termination marks; cells containing commas, quotes or line breaks are quoted so that a CSV reader recovers them. Order labels are unique, the start is 0, consecutive steps are numbered consecutively and branches of a split get consecutive letters; the condition cell of a branch is the flow's name or condition (else for the default flow, empty for parallel splits).",
  ["inputs"], "for every block-structured acyclic process with splits of 2 to 26 branches nested to any depth, built through the API or imported.",
  "Eight diagrams are exported and the written rows are never read; two tests are marked as not working for nested splits.",
  [CSE, UT], [("export_node / export_element recursion over splits and joins", CSE), ("generate_nodes_clasification", UT)], ["export_csv_file", "the written file"])
p("C19", "A process exported to CSV and imported again is the same process",
  "For a block-structured process in which every split follows and precedes an activity, exporting to CSV and importing the file gives a process with the same activities, kinds and names, the same direct successor relation between activities, and the same branch conditions. Exporting that process again gives a file with the same rows.",
  ["inputs"], "for every such process: any nesting, empty branches, terminating branches, any XML- and CSV-legal names.",
  "The existing round-trip test has its comparison commented out.",
  [CSE, CSI], [("order label grammar shared by export and import", CSE)], ["export_csv_file", "load_diagram_from_csv_file"])
p("C20", "Automatic layout terminates and gives every node its own place",
  "Laying out any diagram, cyclic or not, with or without pools and message flows, terminates without error and gives every node numeric coordinates such that no two nodes share a position and no two node boxes of the default size overlap.",
  ["inputs"], "for every such diagram: any number of starts, splits of any width, nested and unstructured joins, loops, disconnected nodes, all flow node kinds.",
  "Three small diagrams and one larger one are laid out; the coordinates are not inspected.",
  [LAY, B+"grid_cell_class.py"], [("topological_sort", LAY), ("place_element_in_grid, insert_into_grid", LAY)], ["generate_layout", "get_nodes_positions"])
p("C21", "Automatic layout draws flows left to right between their end nodes",
  "After automatic layout of an acyclic diagram the target of every flow lies strictly to the right of its source. Every flow then has at least two waypoints, the first on or inside the box of its source and the last on or inside the box of its target (boxes of the default size 100 x 100 at the node coordinates), for cyclic diagrams as well.",
  ["inputs"], "for every diagram (first sentence: acyclic ones).",
  "The coordinates and waypoints of a layout are not inspected by any test.",
  [LAY], [("column assignment in place_element_in_grid", LAY), ("set_flows_waypoints", LAY)], ["generate_layout", "get_nodes_positions", "get_flows"])
p("C22", "Automatic layout changes nothing but positions and waypoints",
  "Laying out a diagram changes only node coordinates and flow waypoints: nodes, flows, names, kinds, attributes, flow lists and their order are kept. Laying out again changes nothing.",
  ["inputs", "histories"], "for every diagram.",
  "No test compares a diagram before and after layout.",
  [LAY], [("deepcopy before consuming the flow lists", LAY)], ["generate_layout"])
p("C23", "Counting metrics equal the number of matching elements",
  "Every counting metric (nodes of a kind or of all kinds, events, gateways, activities, control flow elements, TNSE, TNIE, TNEE, TNE, NOA, NOAC, NOAJS, number of nodes, gateway heterogeneity) equals the number obtained by counting the diagram's elements by its definition, where activities are tasks and sub-processes, events are start, end, intermediate catch and intermediate throw events, and gateways are the five gateway kinds.",
  ["inputs", "histories"], "for every diagram, including empty ones and ones with many elements of one kind.",
  "The tests compare each metric with a constant on four example models.",
  [MET], [("get_nodes_count and its sums", MET)], ["metric functions"])
p("C24", "Structural complexity metrics follow their definitions",
  "The coefficient of network complexity is the number of flows divided by the number of nodes, the average gateway degree is the mean number of incoming plus outgoing flows of the gateways, the Durfee square metric is the largest d such that d element kinds occur at least d times each, and the perfect square metric is the largest p, not above the number of kinds, such that the p most frequent kinds together occur at least p squared times.",
  ["inputs"], "for every non-empty diagram (average gateway degree: with at least one gateway), for arbitrary distributions of element kinds.",
  "The tests compare each metric with a constant on four example models.",
  [MET], [("CoefficientOfNetworkComplexity, AverageGatewayDegree, DurfeeSquare, PerfectSquare", MET)], ["metric functions"])
p("C25", "Crossing and segment counts match the drawn flow lines",
  "The segment count is the number of consecutive waypoint pairs of all flows (flows without waypoints contribute none). The crossing count is the number of pairs of segments that have at least one common point but no common end point, counted once per pair, for any slopes, collinear overlaps and touching segments, and independent of the order of flows and the direction of segments.",
  ["inputs"], "for every set of flow waypoints with exactly representable coordinates.",
  "One diagram is measured and compared with a constant.",
  [LM], [("get_flows_segments, segments_common_points, do_intersect", LM)], ["count_crossing_points", "count_segments"])
p("C26", "Longest path metrics return a longest path",
  "The longest path metric returns a maximal-length path without repeated nodes from a node with no incoming flow to a node with no outgoing flow, following flow direction, together with its number of nodes. The task variant returns the tasks and sub-processes, in order, of a path without repeated nodes from a node with no incoming flow that carries as many of them as possible, together with their number.",
  ["inputs"], "for every diagram, cyclic or not, with any number of starts.",
  "One cyclic example is measured and compared with a constant length; the path itself is not checked.",
  [LM], [("find_longest_path, find_longest_path_tasks", LM)], ["compute_longest_path", "compute_longest_path_tasks"])
p("C27", "Drawings show exactly the diagram",
  "The DOT export and the graph rendered to PNG contain exactly one drawn node per diagram node and one line per flow from its source to its target, carrying the name of the node or flow (in the PNG as its label) whatever text ids and names consist of; tasks are drawn as boxes and exclusive gateways as diamonds in the PNG. The output file is the given name plus .dot or .png.",
  ["inputs"], "for every imported or built diagram with any number of nodes and flows.",
  "Tests only check that the drawing functions do not raise.",
  [VIS], [("bpmn_diagram_to_dot_file, bpmn_diagram_to_png", VIS)], ["bpmn_diagram_to_dot_file", "bpmn_diagram_to_png"])
p("C28", "Typed BPMN element objects accept only values of the documented type",
  "A setter (or constructor argument) of the typed BPMN element classes accepts every value of the documented type, including None where the attribute is optional, and the getter then returns it; it rejects any other value with TypeError, or ValueError for an unlisted enumeration value, and the object keeps its previous value. Each new object starts with the documented default and shares no state with other objects.",
  ["inputs", "histories"], "for every element class, every setter and every history of accepted and rejected assignments.",
  "No test touches these classes.",
  [B+"graph/classes"], [("type checks in set_* methods", B+"graph/classes")], ["get_*/set_* of the element classes"])
p("C29", "Exports write exactly the requested file, completely or with an error",
  "An XML, no-DI XML or CSV export creates missing directories, replaces an existing file of any length completely by the new content, and creates or changes no file except directory plus filename; when it returns normally the file is complete and readable, whatever was there before. If the file cannot be written (no permission, no space, a directory in its place), the export raises an error instead of returning normally.",
  ["fault_sequences", "inputs"], "for every prior content of the output location and every write failure.",
  "Tests only export into a fresh or their own output directory and never meet a failing file system.",
  [EXP, CSE], [("os.makedirs, ElementTree.write, file close", EXP), ("export_process_to_csv", CSE)], ["export_xml_file", "export_xml_file_no_di", "export_csv_file", "file system"])
p("C30", "Operations have no side effects outside their result",
  "Importing a file reads that file and no other, whatever entities, DTDs, schema locations or links it refers to; importing, building, querying, measuring and laying out a diagram create, change or remove no file, start no process and open no network connection. No operation, exports included, changes the working directory, environment, locale, recursion limit, umask, signal handlers or random generator state of the calling program, starts threads, leaves files open or prints to standard output, also when it fails with an error.",
  ["inputs", "fault_sequences"], "for every input file (valid, damaged or hostile), every diagram and every operation.",
  "No test looks at anything but the diagram object and the exported file.",
  [IMP, CSI, REP, EXP, CSE, LAY, MET, LM, VIS], [("read_xml_file (minidom without external entities)", IMP), ("import_csv_file_as_dict", CSI), ("open of the output file", CSE)],
  ["all public operations", "process and file system state"])
p("C31", "A file that is not a readable process is rejected with an error",
  "Importing a file that is missing, is a directory, or is not well-formed XML raises an error. Importing a process sheet raises an error if it is empty or not UTF-8 text, if the Activity or Terminated column is missing, if a row after the first has more cells than the header or a quoted cell is not closed, if an order label occurs twice (surrounding spaces ignored), if a row neither terminates nor has a continuation in the sheet, or if a goto names no order of the sheet. The import never returns normally with part of such a process, and the undamaged file can be imported afterwards.",
  ["inputs", "fault_sequences"], "for every damaged form of every supported document and process sheet.",
  "No test imports an invalid file.",
  [IMP, CSI], [("read_xml_file", IMP), ("fill_graph_connections, get_goto_target, remove_white_spaces_in_orders", CSI)], ["load_diagram_from_xml_file", "load_diagram_from_csv_file"])
p("C32", "The view on screen shows exactly the diagram",
  "visualize_diagram draws every task, sub-process, gateway, start, end, intermediate catch and intermediate throw event of the diagram exactly once, at its position (activities as squares, gateways other than event-based ones as diamonds, events as circles), labels every node with its name at that position, draws one line per flow from the position of its source to that of its target, labelled with the name of the flow, opens exactly one view after everything has been drawn, and leaves the diagram unchanged; showing the diagram again after changes shows the changed diagram.",
  ["inputs", "histories"], "for every imported or built diagram whose nodes all have positions.",
  "No test calls visualize_diagram (it would open a window); with the installed networkx it needs two names that newer Python and matplotlib removed.",
  [VIS, REP], [("visualize_diagram", VIS), ("get_nodes_positions, get_nodes_id_list_by_type", REP)], ["visualize_diagram", "networkx drawing functions", "pyplot.show"])
p("C33", "A diagram exported to XML and imported again is the same diagram",
  "For a diagram of any origin - built through the API, imported from XML or from a process sheet, extended, edited or laid out automatically - exporting it to XML with diagram data and importing that file gives an equal diagram: the same processes, pools, lanes, nodes (id, kind, name, process, attributes, event definitions with ids, incoming and outgoing flows), sequence flows with their ends, names and conditions, message flows, node positions and sizes and flow waypoints. The file holds no identifier twice. A flow with a condition but no name may get the condition as its name; nodes laid out without a size get the default size 100 x 100. Repeating the conversion, with further work in between, loses nothing either.",
  ["inputs", "histories"], "for every diagram of any origin and every chain of edits, layouts and conversions; at most one flow between two given nodes in one direction.",
  "The tests never compare an imported diagram with the one that was exported, and never export a diagram made from a sheet or an automatic layout and look at the result.",
  [EXP, IMP, REP, CSI, LAY], [("export_xml_file", EXP), ("load_diagram_from_xml", IMP), ("load_diagram_from_csv", CSI), ("generate_layout", LAY)],
  ["export_xml_file", "load_diagram_from_xml_file", "the written file", "documented fields of the diagram object"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
