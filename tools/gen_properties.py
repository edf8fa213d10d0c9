#!/usr/bin/env python3
"""Single source for /verif/properties.jsonl (run it after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "A graph is exactly the set of vertices and edges its edit history leaves",
  "After any sequence of vertex and edge additions and removals, every query on the graph (emptiness, vertex and edge counts, membership of vertices and edges, vertex and edge listings, inbound and outbound edges, degrees) agrees with the mathematical pair (V, E) obtained by applying the same edits to sets. "
  "Adding an edge adds its endpoints, removing a vertex removes all its incident edges and nothing else, removing an edge keeps its endpoints, repeated or no-op edits change nothing, and a self-loop is one edge. Removing a vertex tells whether it was present, adding an edge tells whether it was new, and reversing an edge twice gives it back. Two graphs are equal exactly when they have the same vertices and the same edges, whatever the order they were added in.",
  ["histories"], "every finite sequence of add/remove vertex/edge operations over any 64-bit vertex ids, including self-loops, antiparallel edges and re-additions",
  "The unit tests apply about ten hand-written sequences of at most nine operations with ids under 1000 and never contain a self-loop; the edge is stored twice (indexed by both endpoints), so consistency is a history invariant.",
  ["core/src/directed_graph.rs", "core/src/graph.rs", "core/src/graph_command.rs"],
  [("double indexing of edges by both endpoints", "core/src/directed_graph.rs add_edge/remove_edge/remove_vertex"), ("edge counting", "core/src/directed_graph.rs edge_count")],
  ["DirectedGraph public queries"], [dict(name="edge_map", meaning="vertex -> incident edges, each edge indexed by both ends", where="core/src/directed_graph.rs")])

p("C02", "Graph command files round-trip and replay in order",
  "Saving any graph as a command file and reading it back yields the same vertex and edge sets, and so does replaying the command list derived from a graph. "
  "Appending any list of commands to a command file leaves what it already held untouched and makes it read back as the old commands followed by exactly the new ones in order, so that loading the file equals applying the whole history. Reverting a command gives the opposite edit (reverting twice gives the command back), and applying an effective edge edit or vertex addition followed by its reverse restores the graph.",
  ["inputs", "histories"], "every graph and every sequence of append batches over any 64-bit ids, from empty to several times the I/O buffer size",
  "Unit tests translate four single commands to and from text; no test writes or reads a file, so save, append, reading order, large files and extreme ids are untested.",
  ["core/src/format/gcmd.rs", "core/src/format/utils.rs", "core/src/graph_command.rs"],
  [("command_into_line / parse_line are inverse", "core/src/format/gcmd.rs"), ("append-only log", "core/src/format/gcmd.rs add_commands"), ("ordered replay", "core/src/graph_command.rs apply_commands")],
  ["gcmd::save/read/read_as_commands/add_commands, GraphCommand::as_commands/apply_*/revert"])

p("C03", "Any file content is either read faithfully or rejected with an error",
  "Reading any byte sequence as a command file or as a TGF file never crashes: it returns a graph (or command list) or an error naming the (1-based) line at fault. "
  "A file is accepted exactly when every line that is neither empty nor a comment (first non-blank character '#') is well-formed for that format with ids that fit in 64 bits, in which case its commands are those lines' commands in order; otherwise the error names the first ill-formed line.",
  ["inputs"], "every byte sequence: ill-formed lines, ids beyond 64 bits, non-ASCII digits, invalid UTF-8, CRLF, missing final newline, comments, blank lines",
  "Two unit tests try one malformed line each; nothing reads a file, and overflow, Unicode digits and invalid UTF-8 are never tried.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "core/src/format/utils.rs"],
  [("line grammar regexes and id parsing", "core/src/format/gcmd.rs, core/src/format/tgf.rs parse_line"), ("error carries line number", "core/src/format/utils.rs read_as_commands")],
  ["gcmd::read, gcmd::read_as_commands, tgf::read, tgf::read_as_commands, gc-desc on a hand-edited commands file"])

p("C04", "TGF files round-trip and labels are ignored",
  "Saving any graph as TGF and reading it back yields the same vertex and edge sets. "
  "Text after a vertex id (not itself starting with a number) or after an edge's two ids is a label and never changes which vertices and edges are read, nor do comments, blank lines or the amount of white space between an edge's two ids.",
  ["inputs"], "every graph over any 64-bit ids, every label text and comment placement",
  "Unit tests parse four single lines with one fixed label; no TGF file is ever written or read by a test.",
  ["core/src/format/tgf.rs", "core/src/format/utils.rs"],
  [("edge before vertex regex with trailing label", "core/src/format/tgf.rs parse_line"), ("writer", "core/src/format/tgf.rs save")],
  ["tgf::save, tgf::read, tgf::read_as_commands"])

p("C05", "The stored graph is what the issued gc-* edit commands add up to",
  "After any sequence of gc-init, gc-add (vertices, edges, chains, cycles, stars, cliques, each optionally reversed), gc-delete, gc-build and gc-clean in a directory, the graph stored there equals the one obtained by applying those edits in order to an empty graph, and gc-desc reports its vertex count, edge count and smallest and largest vertex id. "
  "gc-init on an existing graph and gc-build never change the graph; commands given one directory never affect the graph of another.",
  ["histories", "configurations"], "every sequence of edit command invocations with any option combinations and ids, on one or several directories",
  "The command crate has no tests at all: no binary, argument combination or stored history is ever exercised by the suite.",
  ["command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/bin/gc-build.rs", "command/src/bin/gc-init.rs", "command/src/bin/gc-clean.rs", "command/src/bin/gc-desc.rs", "command/src/graph_utils.rs", "command/src/arg_utils.rs"],
  [("append-only command log under .graph/commands", "command/src/graph_utils.rs apply_graph_commands"), ("edge patterns", "command/src/bin/gc-add.rs chain/cycle/star/clique_from_vertices, reverse_if_needed"), ("compaction", "command/src/bin/gc-build.rs")],
  ["<dir>/.graph/commands read back, stdout of gc-desc, exit codes"],
  [dict(name=".graph/commands", meaning="ordered log of graph commands", where="command/src/graph_utils.rs")])

p("C06", "An edit that reports success has been stored completely",
  "Whenever gc-add, gc-delete or gc-build exits successfully (or the underlying save, append and TGF-save operations return success), the complete edit is in the file, even if the device is full, the file may not grow, or the graph does not exist; if it could not be stored the command exits with a failure. "
  "An edit command with malformed ids, an odd number of edge ends or too few vertices exits with a failure and leaves the stored graph unchanged, and so does gc-build on a file it cannot read.",
  ["fault_sequences", "inputs"], "every edit and every point at which writing the file can fail (each possible file-size limit, a full device, a missing or unwritable graph), and every malformed argument",
  "No test writes a file, let alone makes a write fail; buffered output hides write errors until the buffer is flushed, so success on ordinary disks says nothing.",
  ["core/src/format/gcmd.rs", "core/src/format/tgf.rs", "command/src/graph_utils.rs", "command/src/bin/gc-add.rs", "command/src/bin/gc-delete.rs", "command/src/bin/gc-build.rs"],
  [("flush and error propagation of the buffered writer", "core/src/format/gcmd.rs save/add_commands, core/src/format/tgf.rs save"), ("exit status from the edit result", "command/src/bin/gc-add.rs, gc-delete.rs, gc-build.rs")],
  ["exit status and file content under RLIMIT_FSIZE, /dev/full, missing graph directory"])

p("C07", "A locked graph is never edited, and edits release their lock",
  "While the lock file of a directory exists (held by another command), every command that edits or cleans its graph fails at once, leaves the stored graph as it was and leaves the lock in place. "
  "Once an edit command ends, successful or not, the lock it took is gone; and of any commands run concurrently on one graph, exactly those that reported success have taken full effect and the stored graph stays readable.",
  ["schedules", "histories"], "every editing command, every state of the lock file, every interleaving of concurrent edit commands",
  "There is no test of the command crate; mutual exclusion is a property of interleavings.",
  ["command/src/graph_utils.rs", "command/src/bin/gc-build.rs", "command/src/bin/gc-random.rs"],
  [("lock file taken around every edit", "command/src/graph_utils.rs lock/unlock/with_lock/apply_graph_commands/clean")],
  ["<dir>/lock, <dir>/.graph/commands, exit codes; graph_utils::lock/unlock/is_locked/with_lock"],
  [dict(name="lock", meaning="presence means a command is being processed", where="command/src/graph_utils.rs LOCK_FILE")])

p("C08", "Topological sort gives a valid order exactly for acyclic graphs",
  "For every graph, the topological sort returns an order if and only if the graph has no directed cycle (a self-loop is a cycle), and the DAG test agrees. "
  "The order lists every vertex, isolated ones included, exactly once, with each edge's start before its end; gc-topo-sort prints such an order, or says that the graph is not a DAG.",
  ["inputs"], "every directed graph",
  "Eight hand-picked graphs without self-loops or isolated vertices; edge counting and edge removal bookkeeping only agree for graphs of that kind.",
  ["core/src/algorithm/topo_sort.rs", "command/src/bin/gc-topo-sort.rs", "core/src/directed_graph.rs"],
  [("Kahn's algorithm with removed-edge bookkeeping against the edge count", "core/src/algorithm/topo_sort.rs topological_sort")],
  ["topological_sort, is_dag, try_dag, stdout of gc-topo-sort"])

p("C09", "A shortest path is a real path of minimum cost, or there is none",
  "For every graph, pair of vertices and additive non-negative edge costs, the best-first shortest-path search (with no heuristic or any consistent one that is zero at the target) returns a path following the graph's edges from start to end whose reported score is its cost and is minimum, and returns nothing exactly when the end is unreachable. "
  "gc-short-path does the same with unit costs, printing the cost and the path's vertices, or that the end is not reachable.",
  ["inputs"], "every directed graph, start, end, non-negative cost assignment and consistent heuristic",
  "One graph with one cost function and no heuristic is tested, and one unreachable case; optimality needs all graphs and weights.",
  ["core/src/search/a_star.rs", "core/src/iter/iter_best.rs", "core/src/iter/iter_datastructure.rs", "command/src/bin/gc-short-path.rs"],
  [("min-priority queue of scored paths and visited set", "core/src/iter/iter_best.rs"), ("first path popped at the target", "core/src/search/a_star.rs shortest_path")],
  ["a_star::shortest_path, stdout of gc-short-path"])

p("C10", "Single-source shortest and longest paths are exact; negative cycles are found",
  "For every DAG, weights of any sign and start vertex, the DAG shortest (longest) paths hold, for exactly the vertices reachable from the start, a path of the graph from the start whose score is its total weight and is minimum (maximum). "
  "For any graph, Bellman-Ford does the same for shortest paths, and returns nothing exactly when a cycle of negative weight is reachable from the start; the queue-based variant gives equally good paths whenever no such cycle is reachable.",
  ["inputs"], "every directed graph, integer weights of any sign without overflow, every start vertex (not only sources)",
  "All four algorithms are tested on the same 8-vertex DAG from its only source; other start vertices, unreachable parts, cycles and negative cycles are never tried.",
  ["core/src/algorithm/shortest_path.rs", "core/src/algorithm/longest_path.rs", "core/src/algorithm/topo_sort.rs"],
  [("relaxation in topological order", "core/src/algorithm/shortest_path.rs dag_shortest_paths"), ("|V|-1 rounds plus a detection round", "core/src/algorithm/shortest_path.rs bellman_ford"), ("FIFO relaxation", "core/src/algorithm/shortest_path.rs spfa"), ("negated weights", "core/src/algorithm/longest_path.rs")],
  ["dag_shortest_path(s), dag_longest_path(s), bellman_ford, spfa"])

p("C11", "Constrained shortest path obeys every constraint and is minimal",
  "For every graph, start, end, positive edge costs and list of constraints, the constrained search returns a walk along the graph's edges from start to end that satisfies every constraint and whose score is its cost and the minimum over all such walks; if no such walk exists it reports none, rather than searching forever. "
  "gc-csp does the same with unit costs for its include, exclude, ordered, include-cycle, no-cycle and min/max/exact length and score options: every option given, alone or combined, is enforced.",
  ["inputs", "configurations"], "every directed graph, start, end and combination of constraints (including nested and/or/xor/not in the library)",
  "The two unit tests for constrained search are empty placeholders (assert true) and gc-csp has none.",
  ["core/src/search/a_star.rs", "core/src/iter/iter_best_constraint.rs", "core/src/constraint/constraint.rs", "command/src/bin/gc-csp.rs", "command/src/arg_utils.rs"],
  [("best-first search over walks pruned by partial checks", "core/src/iter/iter_best_constraint.rs"), ("complete check at the target", "core/src/search/a_star.rs constrained_shortest_path"), ("option to constraint translation", "command/src/arg_utils.rs build_constraint_*")],
  ["a_star::constrained_shortest_path, stdout of gc-csp"])

p("C12", "Constraints mean what they say, and pruning never loses a solution",
  "On a complete path each constraint holds exactly when its description does: contains a vertex or an edge, vertices of a list appear (if at all) in the listed order, some vertex repeats, length (number of vertices) or score at least or at most a bound, and the boolean combinations and, or, xor and not of any nesting. "
  "The check on a partial path accepts every prefix of every path that satisfies the constraint when scores do not decrease along the path.",
  ["inputs"], "every path, score and constraint expression of any nesting; every prefix of every path",
  "Unit tests check each constraint on one or two fixed paths and one level of nesting; soundness of pruning relates all prefixes to all extensions.",
  ["core/src/constraint/constraint.rs", "core/src/path.rs"],
  [("check_complete / check_partial", "core/src/constraint/constraint.rs"), ("path predicates", "core/src/path.rs contains_vertex/contains_edge/contains_cycle")],
  ["Constraint::check_complete, Constraint::check_partial, Path queries"])

p("C13", "Constraint validation rejects exactly the contradictory sets it documents",
  "Validation of a list of constraints fails if and only if the list both requires and forbids the same vertex (an edge required also requires its two ends) or the same edge, both requires and forbids a cycle, gives more than one minimum or more than one maximum for length or for score, or gives a minimum above the maximum for length or for score. "
  "In particular, a list without any such conflict, such as the empty list, is accepted whatever the order of its constraints.",
  ["inputs"], "every list of constraints in every order",
  "The unit tests call the private helpers on ten lists; the public entry point is never called.",
  ["core/src/constraint/checker.rs"],
  [("sequence of six pairwise conflict checks", "core/src/constraint/checker.rs validate")],
  ["checker::validate"])

p("C14", "Cycle search lists every simple cycle of a connected graph exactly once",
  "For every graph, each cycle listed is a simple directed cycle of the graph (a self-loop is a cycle of length 1) in canonical form, its smallest vertex first, and no cycle is listed twice; for every weakly connected graph all simple cycles are listed. "
  "On connected graphs the count, first, first-n, all, girth, shortest, longest and Hamiltonian-cycle answers are those of the full set of simple cycles. The path form of a cycle closes it: it goes along the cycle's edges and ends with the vertex it starts from.",
  ["inputs"], "every directed graph (completeness: every weakly connected one)",
  "Four graphs are tested, none with self-loops, several source components or no source, and the search starts from vertices chosen by in-degree or by hash order.",
  ["core/src/iter/iter_cycle.rs", "core/src/algorithm/cycle.rs"],
  [("depth-first extension of paths until the last vertex closes a cycle, deduplicated in canonical form", "core/src/iter/iter_cycle.rs CycleIter"), ("choice of starting vertices", "core/src/iter/iter_cycle.rs find_starting_edges"), ("aggregates", "core/src/algorithm/cycle.rs")],
  ["cycle_iter, algorithm::cycle::*, Cycle::{from_vertices,canonical,is_canonical,as_path,len}"])

p("C15", "gc-cycle answers over exactly the cycles that match its constraints",
  "For every connected stored graph and every combination of gc-cycle's constraints (minimum, maximum and exact length and score, vertices and edges to include or to exclude, lists included), --all, --count, --head, --take-n, --shortest and --longest answer over exactly the simple cycles of the graph that match all of them. "
  "A cycle's length and score are its number of vertices and its edges include the one that closes it; --girth and --hamiltonian answer over all cycles of the graph.",
  ["inputs", "configurations"], "every connected graph and every combination of an action and constraints",
  "gc-cycle has no tests.",
  ["command/src/bin/gc-cycle.rs", "command/src/arg_utils.rs", "core/src/iter/iter_cycle.rs"],
  [("filter of the cycle iterator by complete checks", "command/src/bin/gc-cycle.rs check"), ("option to constraint translation", "command/src/arg_utils.rs"), ("answer formatting", "command/src/bin/gc-cycle.rs format_*")],
  ["stdout of gc-cycle"])

p("C16", "Hamiltonian path search is exact",
  "For every graph, the Hamiltonian paths listed are exactly the paths along its edges that visit every vertex once, each listed once; the first path is one of them or none exists, and the graph is called Hamiltonian exactly when it is empty or has one. "
  "A path of the graph is recognised as Hamiltonian exactly when it visits every vertex once.",
  ["inputs"], "every directed graph, with self-loops, isolated vertices and several components",
  "Six small graphs are tested by the number of paths only, not by the paths.",
  ["core/src/algorithm/hamiltonian.rs", "core/src/iter/iter_depth.rs"],
  [("simple path enumeration from every vertex filtered by size", "core/src/algorithm/hamiltonian.rs")],
  ["hamiltonian::{is_hamiltonian,iter_hamiltonian_paths,first_path,is_path_hamiltonian}"])

p("C17", "Maximum flow is feasible and equals the minimum cut",
  "For every graph, capacities and two different vertices, the flow returned uses every edge of the graph with its capacity, never exceeds it, is conserved at every vertex other than the two, and the net flow out of the source and into the target is the value returned. "
  "That value equals the minimum capacity of a cut separating source from target.",
  ["inputs"], "every directed graph, capacity assignment (zero included, sums within 64 bits) and pair of distinct vertices",
  "Three textbook graphs on which greedy augmentation without cancelling flow already reaches the optimum.",
  ["core/src/algorithm/max_flow.rs"],
  [("augmenting paths over forward and backward residual edges", "core/src/algorithm/max_flow.rs find_augmenting_path/AugmentingPathIter/update_flow/edge_residual_capacity")],
  ["max_flow"])

p("C18", "Traversals visit exactly what is reachable, once, in their order",
  "From any vertex, breadth-first and depth-first traversal visit every reachable vertex exactly once starting with it, the former in non-decreasing distance and the latter in an order a depth-first search can produce; without a start they do so from some vertex of the graph. "
  "The breadth-first and depth-first path traversals list every simple path from the vertex exactly once, breadth-first by non-decreasing length and depth-first with all extensions of a path right after it; best-first traversal visits every reachable vertex once with a real path and its score, by non-decreasing cost and at minimum cost for non-negative additive costs.",
  ["inputs"], "every directed graph, start vertex and non-negative additive cost",
  "Each traversal is tested on one 8-vertex graph and one 5-cycle.",
  ["core/src/iter/iter_breadth.rs", "core/src/iter/iter_depth.rs", "core/src/iter/iter_best.rs"],
  [("FIFO / LIFO / priority frontier plus visited set", "core/src/iter/*.rs")],
  ["bfs_iter(_from), dfs_iter(_from), bfs_path_iter_from, dfs_iter_path_from, best_iter_from"])

p("C19", "Attribute mappings keep the last value set for each vertex or edge",
  "After any sequence of attribute commands and direct additions and removals, looking up a vertex or an edge gives the last value set for it since it was last removed, and nothing (or the default, when one is given) otherwise; an edge and its reverse have separate attributes. "
  "Removal tells whether there was a value, and commands meant for edges never change a vertex mapping nor the other way round, and report that they did nothing.",
  ["histories"], "every sequence of attribute additions and removals on vertices and edges",
  "The attribute module has no tests.",
  ["core/src/attribute/mapping.rs", "core/src/attribute/attribute_command.rs"],
  [("hash map keyed by vertex or edge", "core/src/attribute/mapping.rs"), ("command dispatch", "core/src/attribute/attribute_command.rs")],
  ["AttributeMapping::{add,remove,as_closure,as_closure_with_defaults,name}, AttributeCommand::apply_*"])

p("C20", "Search queues return what was pushed, each in its own order",
  "Under any interleaving of pushes and pops, a stack returns the most recently pushed element still held, a queue the least recently pushed, a max (min) priority queue one of the greatest (smallest) elements held. "
  "Every element pushed is popped exactly once, duplicates included, and popping an empty one returns nothing.",
  ["histories"], "every interleaving of pushes and pops on each of the four structures",
  "Unit tests push three or four numbers and then pop them all; pushes and pops are never interleaved.",
  ["core/src/iter/iter_datastructure.rs"],
  [("linked list and binary heap", "core/src/iter/iter_datastructure.rs")],
  ["SearchQueue::push/pop on Stack, Queue, MaxPriorityQueue, MinPriorityQueue"])

p("C21", "gc-random replaces the graph with a DAG of the requested size",
  "gc-random with N vertices and M edges replaces the graph by an acyclic graph on exactly the vertices 1 to N, with exactly M edges whenever M is at most N(N-1)/4 and never more than M, and it always ends. "
  "If the confirmation is neither forced nor answered with yes or y, the stored graph is left as it was; a count that is not a number makes it fail and changes nothing.",
  ["inputs"], "every vertex and edge count (zero and one vertex, more edges than possible), every answer, every outcome of the random generator",
  "gc-random has no tests, and its result depends on the random generator.",
  ["command/src/bin/gc-random.rs", "command/src/graph_utils.rs", "command/src/arg_utils.rs"],
  [("edges only from a lower to a higher id", "command/src/bin/gc-random.rs creates_random_dag"), ("confirmation", "command/src/arg_utils.rs confirmation_yes_no")],
  ["<dir>/.graph/commands after gc-random, stdout, exit code"])

p("C22", "Queries never change the graph, and bad query options are not ignored",
  "gc-desc, gc-topo-sort, gc-short-path, gc-csp and gc-cycle leave the directory, its graph and its lock exactly as they were, whatever their options and result. "
  "A query with an option value that is not a number of the required kind (vertex id, count, length, score, or an odd number of edge ends) exits with a failure instead of answering as if the option had not been given; so does any query on a missing or unreadable graph.",
  ["inputs", "configurations"], "every query command, option combination, malformed value and stored graph",
  "The command crate has no tests.",
  ["command/src/bin/gc-csp.rs", "command/src/bin/gc-cycle.rs", "command/src/bin/gc-short-path.rs", "command/src/bin/gc-desc.rs", "command/src/bin/gc-topo-sort.rs", "command/src/arg_utils.rs"],
  [("read-only load", "command/src/graph_utils.rs load_graph"), ("option parsing", "command/src/arg_utils.rs, command/src/bin/*.rs")],
  ["directory snapshot before and after, exit codes"])

p("C23", "gc-clean removes the graph and only the graph, and only when confirmed",
  "gc-clean, once forced or confirmed with yes or y, removes the stored graph of the given directory and nothing else in or around that directory; any other answer, or none, leaves everything as it was. "
  "On a directory without a graph it exits with a failure and changes nothing that existed; after a clean and a gc-init the graph is empty. A forced and silent clean that succeeds prints nothing.",
  ["inputs", "histories"], "every directory content, answer and flag combination",
  "The command crate has no tests.",
  ["command/src/bin/gc-clean.rs", "command/src/graph_utils.rs", "command/src/arg_utils.rs"],
  [("recursive removal of the graph directory only", "command/src/graph_utils.rs clean"), ("confirmation", "command/src/arg_utils.rs confirmation_yes_no")],
  ["directory snapshot before and after, exit code"])

p("C24", "A path is its list of vertices, and appending never changes the original",
  "For every list of vertices, the path made from it at once or by appending them one by one reports exactly them: its size, first and last vertex, vertices and consecutive pairs as edges, in order, and it contains a vertex, contains an edge (in that direction, consecutively) and contains a cycle (a vertex repeats) exactly when the list does. "
  "Appending gives a new path and leaves the one appended to unchanged; scored paths compare by their score alone.",
  ["inputs"], "every list of 64-bit vertex ids, with and without repetition, from empty to hundreds of vertices, and every pair of scores",
  "path.rs has no unit tests of its own, and the searches that use it are tested on paths of a few vertices with small ids; every search and constraint rests on these answers.",
  ["core/src/path.rs", "core/src/graph.rs"],
  [("consecutive pairs as edges", "core/src/path.rs to_edge_list"), ("copy on append", "core/src/path.rs append"), ("order by score", "core/src/path.rs ScoredPath")],
  ["Path and ScoredPath public functions"])

p("C25", "The library's store functions keep graph, lock and result in step",
  "Whatever sequence of the library's store functions (init, adding and removing vertices and edges, save, replace, clean, lock, unlock, with_lock) is called on any directories, loading a directory's graph gives what the calls that returned success add up to, and an error where there is no graph; a call that returned an error (other than for a failing device) changed no graph. "
  "Locking succeeds exactly when the directory is not locked and unlocking exactly when it is. with_lock runs its block exactly when it could take the lock, never two blocks at once, returns the block's result, and has released the lock afterwards whether that was a success or an error; edits, replacement and cleaning of a locked graph return an error, and none of them leaves its lock behind.",
  ["histories", "schedules"], "every sequence of calls on several directories, nested blocks, failing blocks and several threads",
  "The command crate has no tests, and which calls succeed depends on the history of locks and graphs of each directory.",
  ["command/src/graph_utils.rs", "core/src/format/gcmd.rs"],
  [("exclusive creation of the lock file", "command/src/graph_utils.rs lock"), ("release on success and on failure", "command/src/graph_utils.rs with_lock"), ("edits under the lock", "command/src/graph_utils.rs apply_graph_commands")],
  ["results of the calls, load_graph, is_locked, the lock file"])

p("C26", "Ids and edges are read exactly, options become the constraints they name",
  "A list of vertex ids given as text is read as exactly the numbers written, in order, when each is a decimal number that fits in 64 bits, and not at all otherwise; a list of edges is read as the consecutive pairs of such a list, and not at all when a vertex is left over. "
  "The constraints built for the include, exclude, include-edges, exclude-edges, ordered, cycle, no-cycle and min, max and exact length and score options hold together on exactly the paths the option describes (every listed vertex or edge included, none of the excluded ones), and validation accepts them.",
  ["inputs"], "every list of words and every option value and path",
  "The command crate has no tests; the parsers and builders serve every command.",
  ["command/src/arg_utils.rs"],
  [("all or nothing parsing", "command/src/arg_utils.rs parse_vertex_id_list"), ("pairing", "command/src/arg_utils.rs as_vertex_tuple"), ("builders", "command/src/arg_utils.rs build_constraint_*")],
  ["arg_utils public functions, check_complete on built constraints"])

p("C27", "Constrained traversal lists every satisfying walk once, cheapest first",
  "For every graph, start vertex, positive additive edge costs and list of constraints, the constrained best-first traversal lists only walks along the graph's edges from the start, each at most once, with its cost as its score and in non-decreasing order of cost. Every walk from the start, to whatever vertex, that satisfies all the constraints is listed; without constraints that is every walk. The traversal ends when one of the constraints bounds the length or the score of the walks or forbids them to repeat a vertex.",
  ["inputs"], "every graph, start, positive cost function and list of constraints",
  "No test drives the iterator beyond the first answer; which walks are lost to pruning depends on the combination of graph, costs and constraints.",
  ["core/src/iter/iter_best_constraint.rs", "core/src/constraint/constraint.rs", "core/src/iter/iter_datastructure.rs"],
  [("expansion and pruning", "core/src/iter/iter_best_constraint.rs next"), ("partial checks", "core/src/constraint/constraint.rs check_partial")],
  ["constrained_best_iter_from"], [{"name": "queue", "meaning": "the partial walks still to be extended", "where": "core/src/iter/iter_best_constraint.rs"}])

p("C28", "A command cut short loses nothing that was stored before",
  "When gc-add, gc-delete, gc-build, gc-init on an existing graph, or a query is killed at any point, or fails because the device does, the stored graph (leaving aside at most one incomplete last line of a gc-add or gc-delete) still holds everything it held before except what the command was told to remove, and nothing new except what it was told to add; gc-build, gc-init and queries leave the graph as it was. Once the lock a killed command may have left is removed, further edits add up as before.",
  ["crash_points", "fault_sequences", "inputs"], "every edit, stored graph and point at which the command is killed or a file operation fails",
  "No test touches the stored file; losing data takes a crash or a full device between truncating and writing.",
  ["command/src/graph_utils.rs", "core/src/format/gcmd.rs", "command/src/bin/gc-build.rs"],
  [("append only edits", "core/src/format/gcmd.rs add_commands"), ("replacement of the file as a whole", "command/src/graph_utils.rs save_graph_as_commands")],
  ["the stored file after the command is gone"], [{"name": ".graph/commands", "meaning": "the stored graph", "where": "command/src/graph_utils.rs"}, {"name": "lock", "meaning": "held while a command edits", "where": "command/src/graph_utils.rs"}])

p("C29", "Options mean the same in every spelling and order",
  "For every command and combination of its options, each given at most once, it makes no difference whether an option is given by its short or its long name, whether a single value is a word of its own or joined to the name, whether short flags are joined, in which order options come, or whether the directory is named by a path or is the current one: the command ends with the same status, stores the same edit and answers the same question. gc-random without a vertex count makes 100 vertices, and gc-build tells the vertex and edge counts exactly when asked to be verbose. Asking for help or the version, whatever else is given, succeeds, prints it and changes nothing.",
  ["inputs", "configurations"], "every command, combination of options and spelling of them",
  "The command crate has no tests; a short name bound to the wrong option or a value read by position shows up only in one spelling or order.",
  ["command/src/bin", "command/src/arg_utils.rs", "command/src/version.rs"],
  [("options declared", "command/src/bin/gc-*.rs parse_args"), ("values read", "command/src/bin/gc-*.rs main")],
  ["command line, exit status, stored graph and printed answer"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
