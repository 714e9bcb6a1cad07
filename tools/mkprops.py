import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
p('C01','Every requested trip is routed exactly once; edge workloads add up',
 "Evaluating or balancing a map with a list of route-pairs counts every requested trip between connected nodes exactly once: each non-shortcut edge's reported workload is the number of trips whose chosen path uses it, and the exported vehicles contain exactly one contiguous, cheapest path per requested connected trip. (With alternative routes and tolerances, a trip for which the tolerances permit no route is left out.) No trip is lost, duplicated or attributed to another edge, for any number of workers, any number of trips and any scheduling of the workers.",
 ['schedules','inputs','configurations'],'all worker schedules, worker counts 1..8, clock behaviours, route-pair lists of any length and multiplicity',
 'There is no test of the balancing/evaluation run at all (it is a binary-only, feature-gated path); the chunk hand-out between master and workers adapts to timing, so one run samples one schedule.',
 ['src/helpers/algorithms.rs','src/bin/osmgraphing/mod.rs','src/bin/osmgraphing/evaluating_balance.rs','src/bin/osmgraphing/balancing','src/multithreading.rs','src/io/vehicles.rs','src/io/routing.rs'],
 [('master hands out chunks over channels, workers return counts and paths','multithreading/work-off master and worker')],
 ['<results>/stats/abs_workloads.csv','<results>/stats/smarts.xml'])
p('C02','Results do not depend on worker count, scheduling or clock',
 "Two evaluations of the same inputs and seed report identical workloads and edge-infos whenever each trip has a unique cheapest path, whatever the number of workers, their scheduling, the speed of the machine or jumps of the wall clock. Where routing draws at random among several alternatives, the draws come from the configured seed alone: repeating a run whose trips form a single portion for one worker gives byte-identical results files, whatever the clock, the scheduling or the operating system's randomness.",
 ['schedules','configurations','fault_sequences'],'all schedules, worker counts, clock jumps and machine speeds over identical inputs',
 'Tests never compare two runs, and cannot control which worker gets which chunk.',
 ['src/multithreading.rs','src/helpers/algorithms.rs','src/bin/osmgraphing/evaluating_balance.rs'],
 [('summing of per-worker counts is commutative; per-chunk seeds drawn by the master','master/worker')],
 ['<results>/stats/*'])
p('C03','A failing worker or child makes the run fail instead of hang or lie',
 "If any part of an evaluation cannot do its work - a route-pair names an unknown node, a worker cannot be started, no workers are configured, an input cannot be parsed - the program terminates with an error and a non-zero exit status within a bounded number of steps, and never reports workloads as if the run had been complete. Runs without such a fault always terminate successfully.",
 ['schedules','fault_sequences','inputs'],'every position of the failing trip in the list, every worker schedule, every thread-creation failure',
 'No test makes a worker fail; whether the master notices depends on which message is in flight.',
 ['src/multithreading.rs','src/helpers/algorithms.rs','src/bin/osmgraphing/mod.rs'],
 [('error propagation from worker to master via channel ends and joins','master/worker')],
 ['exit status','absence of stats files'])
p('C04','Parsing a text map yields exactly the graph the files describe',
 "A graph loaded from a text map contains exactly the described edges and their end nodes, with ids, coordinates, levels, shortcuts and metric values as written (up to the documented accuracy), sorted and indexed consistently, and its forward and backward adjacency agree edge by edge. Comment lines, blank lines, ignored columns and line order do not matter, and neither does how the operating system delivers the bytes (short or interrupted reads).",
 ['inputs','configurations','fault_sequences'],'all text maps and column layouts, all fragmentations of the byte stream',
 'Tests parse a handful of fixed files delivered whole.',
 ['src/io/network/graph/fmi.rs','src/io/network/graph/mod.rs','src/network/graph/building.rs','src/network/graph/indexing.rs','src/network/graph/mod.rs'],
 [('builder sorts, dedups, indexes and builds offset arrays','network/graph/building')],
 ['graph API dump','exported graph file'])
p('C05','No input is silently truncated',
 "When an input file (map, edge-info file, route-pairs, configuration) cannot be read to its end, because a read or open fails with an error at any point or because the file ends before the declared number of records (or within a block of a PBF file), loading fails with an error. It never yields a smaller graph, fewer metric values or fewer trips as if the input had been complete.",
 ['fault_sequences','inputs'],'an I/O error at every read of every input, a cut at every record',
 'Tests never inject read errors or truncated files.',
 ['src/io/network/graph/fmi.rs','src/io/network/graph/pbf.rs','src/io/network/edges','src/io/routing.rs','src/configs'],
 [('errors of lines() and of the pbf reader are propagated; declared counts are checked','io/*')],
 ['exit status','graph dump'])
p('C06','An OSM PBF map yields the same correct graph for every decoder schedule',
 "Loading an OSM PBF file yields exactly one forward edge per consecutive node pair of every selected street, in the direction(s) its one-way tags permit, with the coordinates of its nodes, the great-circle length and the speed from its tags. The result is independent of how the data is packed into blocks, of the scheduling of the decoder threads, of the number of processors and of how the bytes are delivered.",
 ['schedules','inputs','configurations','fault_sequences'],'all packings of nodes and ways into blobs, all decoder schedules, all read fragmentations',
 'Tests use three fixed pbf files; the decoder runs on a thread pool whose schedule tests do not control.',
 ['src/io/network/graph/pbf.rs','src/network/graph/building.rs','src/io/network/edges'],
 [('two passes over par-decoded blobs, proto-edges are sorted and indexed afterwards','io/network/graph/pbf')],
 ['graph API dump','exported graph file'])
p('C07','An export is complete or the program reports an error',
 "Whenever the program exits successfully, every file it was asked to write (graph, edge-infos, route-pairs, routes, workloads, vehicles) exists and has its full, correct content. If any open, create, write or the available disk space fails at any point - including the very last buffered bytes - the program exits with an error; interrupted and partial writes are completed.",
 ['fault_sequences','inputs'],'a fault at every write, every disk-full point, all partial-write patterns',
 'Tests never make a write fail.',
 ['src/io/network/graph/fmi.rs','src/io/network/edges','src/io/routing.rs','src/io/vehicles.rs','src/bin/osmgraphing'],
 [('write_all via BufWriter and explicit flush','writers')],
 ['exit status and the files written'])
p('C08','Existing output files are never overwritten or damaged',
 "A file that already exists at an export's destination keeps its bytes, and the run that would have written it fails with an error, over every history of runs, including when the file appears between the start of the run and the moment of writing, after a crashed earlier run, and for every kind of export.",
 ['histories','schedules','crash_points'],'all sequences of runs, crashes and concurrently created files',
 'Tests write only to fresh paths.',
 ['src/helpers/io.rs','src/io/network','src/io/routing.rs','src/bin/osmgraphing'],
 [('create_new when opening outputs','io helpers')],
 ['bytes of pre-existing files','exit status'])
p('C09','Writing a graph and reading it back yields the same graph',
 "A graph exported to a text map (with an index-preserving or id-preserving column selection) and loaded again has the same nodes, ids, coordinates, edges, shortcuts and metric values up to the documented accuracy, and answers the same queries; exporting it once more reproduces the same bytes. Exports contain denormalised metrics when normalisation is used, and metrics by edge-info files merge back to the same values.",
 ['inputs','configurations','histories'],'all graphs, column selections and export/import chains, including under fragmented I/O',
 'Tests compare only the fixed sample maps for selected columns.',
 ['src/io/network/graph/fmi.rs','src/io/network/edges','src/network/graph/mod.rs','src/helpers'],
 [('writers print ids, coordinates and denormalised metrics; parser inverts','io/network/graph')],
 ['exported bytes','graph API dump'])
p('C10','Shortest paths are optimal, valid and independent of earlier queries',
 "For every connected pair of nodes routing returns a contiguous path of existing edges from source to destination whose weighted cost is minimal among all paths, and for unconnected pairs it returns no path. The answer does not depend on which queries the same routing object served before, on which graph, or on what other threads do with the shared graph at the same time.",
 ['inputs','histories','schedules'],'all graphs, weightings and query sequences, all interleavings of several query threads on one graph',
 'Tests query small fixed graphs with fresh objects; they never switch graphs, and never run threads.',
 ['src/routing/dijkstra.rs','src/routing/paths.rs','src/network/graph/mod.rs','src/network/graph/indexing.rs'],
 [('reset of touched entries between queries; bidirectional stop criterion','routing/dijkstra')],
 ['library query results'])
p('C11','Contracted graphs give the same answers, and shortcuts unpack to real paths',
 "On a contracted graph the hierarchical search returns a path with the same cost as the plain search on the same graph and on the uncontracted original, and finds a path exactly when one exists. Every path unpacks to a contiguous sequence of non-shortcut edges between the same end nodes with the same metric sums.",
 ['inputs','configurations','histories','schedules'],'all graphs, contraction orders and contraction ratios, all query histories and interleavings',
 'Tests use two fixed contracted maps built with an external tool.',
 ['src/routing/dijkstra.rs','src/routing/paths.rs','src/network/graph/building.rs','src/io/network/graph/fmi.rs'],
 [('upward search by level ordering of edges, stall conditions, recursive flattening','routing')],
 ['library query results'])
p('C12','Alternative routes are valid, distinct and within tolerance',
 "Every alternative route offered by the explorator is a contiguous path between the requested nodes, has costs different from the other alternatives, is not strictly beaten in all considered metrics by any other route, and respects the configured tolerance of every metric relative to the best possible route for that metric. Without tolerances the alternatives contain a cheapest route for every single considered metric and for all of them weighted equally; with two considered metrics, and at least three alternatives whose costs do not lie on one line, they contain a cheapest route for every weighting of these metrics. Alternatives are found exactly when the nodes are connected (and the tolerances permit), and they do not depend on earlier queries of the same object or on other threads.",
 ['inputs','configurations','histories','schedules'],'all graphs, weightings, tolerances, triangulation facet orders, query histories and interleavings',
 'Tests cover one small graph without tolerances; the geometry library is external.',
 ['src/routing/explorator.rs','src/routing/dijkstra.rs','src/routing/paths.rs'],
 [('hull exploration with per-metric tolerance filter','routing/explorator')],
 ['library query results','smarts.xml'])
p('C13','Balancing iterations keep the documented update rule, or the run fails',
 "A successful balancing run leaves, for every iteration, the graph, edge-info, configuration and workload files; the workload metric in each iteration's graph is the documented (averaged or explicit-Euler) update of the previous one by the counted workloads, raised to the configured minimum and then normalised by its mean, and the results of earlier runs stay as they are. If the external contraction tool fails, is killed or produces a broken file, or if any file cannot be written, the run stops with an error and later iterations are not reported.",
 ['schedules','fault_sequences','configurations','histories'],'all worker schedules, iteration counts, update methods, and failures at each child call or file access',
 'There is no test of balancing; it needs an external program.',
 ['src/bin/osmgraphing/balancing','src/multi_ch_constructor.rs','src/network/graph/mod.rs','src/bin/multi-ch-constructor.rs'],
 [('update_new_metric, normalisation, per-iteration result directories, exit-code check of the child','bin/osmgraphing/balancing')],
 ['<results>/<iteration>/*','exit status'])
p('C14','Generated route-pairs are valid, distinct, bounded and reproducible',
 "Generating route-pairs writes at most the requested number of distinct pairs of different, connected nodes of the map, all such pairs if the map is small enough, in ascending order and with the right number on the count line. The same seed and map give the same file under every scheduling, clock and I/O behaviour.",
 ['inputs','configurations','schedules'],'all maps, seeds, maximum counts',
 'No test generates route-pairs.',
 ['src/bin/osmgraphing/mod.rs','src/io/routing.rs','src/helpers/algorithms.rs'],
 [('seeded generator, set of pairs, reachability by routing','bin/osmgraphing')],
 ['route-pairs file'])
p('C15','A crash never leaves a plausible but wrong output or poisons a rerun',
 "If the process dies at any point while exporting, everything on disk is either absent or a prefix of the correct file; a graph or route-pair list which lacks one of its records is rejected when it is loaded again. A rerun after the leftovers are removed, or with a fresh destination, succeeds with the same result as an undisturbed run, and inputs are never modified.",
 ['crash_points','histories'],'a crash at every write of every export, followed by restarts',
 'Tests never crash the process.',
 ['src/io/network/graph/fmi.rs','src/io/routing.rs','src/io/network/edges','src/helpers/io.rs'],
 [('counts are written before records; outputs are created, never modified','io/*')],
 ['files after crash','restart behaviour'])
p('C16','Generated and merged edge metrics land on the right edge',
 "Metrics that are generated (great-circle distance, copies, conversions, computed combinations, custom defaults) or merged from edge-info files belong to exactly the edge whose end nodes or edge-id they refer to, for every line order of the files and every delivery of their bytes. A merge that names an unknown edge, lacks a column or has an unreadable value fails with an error.",
 ['inputs','configurations','fault_sequences'],'all maps, generation pipelines, line orders, and read fragmentations',
 'Tests cover one fixed pipeline.',
 ['src/io/network/graph/mod.rs','src/io/network/edges','src/network/graph/building.rs'],
 [('generation in declared order over proto-edges; id lookup when merging','io/network, network/graph/building')],
 ['graph API dump','exported edge-infos'])
na=[
('C17','Unit conversions are exact and consistent','Converting a quantity between supported units and back yields the original value up to floating-point accuracy, for every value.'),
('C18','Street classification follows the documented tag tables','For every combination of OSM tags, the street category, its permitted vehicles and default speed are those of the documented tables.'),
('C19','Invalid configurations are rejected with a helpful message','Every configuration that references undefined ids, wrong units or contradictory entries is rejected at start-up with a message naming the entry.'),
('C20','Approximate comparison of numbers is an equivalence usable for sorting','The comparison of metric values is total, symmetric and consistent with the documented accuracy for all values that occur.'),
]
for i,t,s in na:
    p(i,t,s,['inputs'],'all values','Tests sample a few values.',['src/units' if i=='C17' else 'src/vehicles' if i=='C18' else 'src/configs' if i=='C19' else 'src/helpers/approximating.rs'],[('pure functions','see files')],['return values'])
F={'C01': ['src/bin/osmgraphing/balancing/multithreading.rs', 'src/bin/osmgraphing/balancing/mod.rs', 'src/bin/osmgraphing/mod.rs', 'src/io/writing/evaluating_balance.rs', 'src/io/writing/smarts.rs', 'src/io/parsing/routing/routes.rs', 'src/network/routes.rs'], 'C02': ['src/bin/osmgraphing/balancing/multithreading.rs', 'src/bin/osmgraphing/balancing/mod.rs', 'src/bin/osmgraphing/mod.rs'], 'C03': ['src/bin/osmgraphing/balancing/multithreading.rs', 'src/bin/osmgraphing/balancing/mod.rs', 'src/bin/osmgraphing/mod.rs'], 'C04': ['src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/graph/mod.rs', 'src/network/graph/building.rs', 'src/network/graph/indexing.rs', 'src/network/graph/mod.rs'], 'C05': ['src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/graph/pbf.rs', 'src/io/parsing/network/edges.rs', 'src/io/parsing/routing/routes.rs', 'src/io/mod.rs', 'src/configs/mod.rs'], 'C06': ['src/io/parsing/network/graph/pbf.rs', 'src/io/parsing/network/graph/mod.rs', 'src/network/graph/building.rs', 'src/configs/parsing/vehicles.rs'], 'C07': ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/writing/evaluating_balance.rs', 'src/io/writing/smarts.rs', 'src/helpers/mod.rs'], 'C08': ['src/helpers/mod.rs', 'src/io/writing/mod.rs', 'src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/writing/evaluating_balance.rs', 'src/io/writing/smarts.rs', 'src/bin/osmgraphing/mod.rs'], 'C09': ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/network/edges.rs', 'src/network/graph/mod.rs'], 'C10': ['src/routing/dijkstra.rs', 'src/routing/paths.rs', 'src/network/graph/mod.rs', 'src/network/graph/indexing.rs'], 'C11': ['src/routing/dijkstra.rs', 'src/routing/paths.rs', 'src/network/graph/building.rs', 'src/network/graph/indexing.rs', 'src/io/parsing/network/graph/fmi.rs'], 'C12': ['src/routing/explorating.rs', 'src/routing/dijkstra.rs', 'src/routing/paths.rs', 'src/helpers/algebra.rs'], 'C13': ['src/bin/osmgraphing/balancing/mod.rs', 'src/bin/osmgraphing/balancing/multithreading.rs', 'src/bin/osmgraphing/mod.rs', 'src/multi_ch_constructor/mod.rs', 'src/bin/multi-ch-constructor.rs', 'src/network/graph/mod.rs', 'src/configs/balancing.rs'], 'C14': ['src/io/writing/routing/random_or_all.rs', 'src/io/writing/routing/mod.rs', 'src/io/parsing/routing/routes.rs', 'src/bin/osmgraphing/mod.rs'], 'C15': ['src/io/writing/network/graph/fmi.rs', 'src/io/writing/network/edges.rs', 'src/io/writing/routing/random_or_all.rs', 'src/io/parsing/network/graph/fmi.rs', 'src/io/parsing/routing/routes.rs', 'src/helpers/mod.rs'], 'C16': ['src/io/parsing/network/edges.rs', 'src/io/parsing/network/graph/mod.rs', 'src/network/graph/building.rs', 'src/configs/parsing/generating/edges/merge.rs', 'src/configs/parsing/generating/edges/metrics.rs'], 'C17': ['src/defaults.rs'], 'C18': ['src/configs/parsing/vehicles.rs', 'src/defaults.rs'], 'C19': ['src/configs/mod.rs'], 'C20': ['src/approximating.rs']}
for x in P: x['anchors']['files']=F[x['id']]
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
