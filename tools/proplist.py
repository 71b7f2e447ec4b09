TECH = "contract-based deductive verification (pyvc VC generator over the real Python source, discharged by z3/cvc5)"
P("P01", "The graph walker hands out each node once, only after its predecessors finished",
  "For every acyclic graph and every order of asking for work, finishing and failing nodes, a node is handed out exactly once and only when all of its still-relevant predecessors have been finished, and every node that is not downstream of a failure is eventually handed out. "
  "Failing a node permanently blocks exactly its descendants, which are reported as blocked and never handed out, while every other node is unaffected. "
  "Iteration stops exactly when every node is finished, failed or blocked, and finishing or failing an unknown or already resolved node is refused without changing the walker.",
  ["inputs", "histories"], "every acyclic graph; every interleaving of next/finish/fail calls",
  "the guarantee is over all graphs and all completion orders; tests run a handful of graphs in one order",
  [B + "graph_walker.py"], [("ready/active/incomplete partition", B + "graph_walker.py GraphWalker.__next__/finish/fail")], TECH,
  note="all five methods under contract, representation invariant inductive over any call history; networkx set operations assumed",
  state=["GraphWalker._ready", "GraphWalker._active", "GraphWalker._incomplete", "GraphWalker._xgraph"])
P("P02", "Execution runs each quantum once after its inputs' producers succeeded, and reports every quantum",
  "For every execution graph, number of processes and pattern of failures, crashes and timeouts, the executor starts a quantum at most once, only after every quantum it depends on has succeeded, and never runs more quanta at once than processes allowed. "
  "A failed or timed-out quantum makes exactly its dependents be skipped while everything else still runs; with fail-fast, or after an invalid-quantum error, the running processes are stopped and an error is raised. "
  "Unless stopped early, every quantum is reported exactly once under its own id as succeeded, failed, timed out or skipped, the overall status and the raised error agree with these reports, and a run in which everything succeeded raises nothing.",
  ["inputs", "histories", "schedules"], "every DAG, process count, timeout and pattern of outcomes and completion times",
  "the outcome depends on which processes finish, fail, hang or die in which order; tests run a few fixed graphs",
  [B + "mp_graph_executor.py", B + "graph_walker.py"], [("job sets mirror job states; walker hands out unblocked quanta", B + "mp_graph_executor.py _JobList.submit/setJobState, MPGraphExecutor._execute_quanta_mp/_execute_quanta_in_process")], TECH,
  note="_JobList construction, submit and setJobState proved (sets mirror states, blocked = unresolved downstream) over the walker contract of P01; the polling loop, reports and process handling bounded under a virtual clock",
  state=["_JobList.pending", "_JobList.running", "_JobList.finished", "_JobList.failed", "_JobList.timed_out"])
P("P03", "Blocks written to a multi-block file are read back unchanged",
  "For every sequence of blocks and every integer width, each block written to a multi-block file is returned byte for byte when read at the address the writer returned, and sequential reading yields exactly the written blocks in writing order. "
  "Blocks never overlap, a second block for the same id and a block whose length does not fit the integer width are refused without recording anything, and an absent block reads as nothing. "
  "A block whose stored length disagrees with its address is rejected instead of being returned.",
  ["inputs", "histories"], "every sequence of (id, payload) writes, every integer width, every read order",
  "payload lengths, widths and write histories are unbounded; tests write a few blocks with one width",
  [B + "quantum_graph/_multiblock.py"], [("length-prefixed blocks and addresses", B + "quantum_graph/_multiblock.py MultiblockWriter.write_bytes, MultiblockReader.read_bytes/read_all_bytes_in_zip")], TECH,
  note="write_bytes, read_bytes, read_all_bytes_in_zip proved for all payloads/widths; zip/tempfile plumbing and model (de)serialisation bounded")
P("P04", "Every id in an address table is found with its own addresses at any page size",
  "For every set of ids with their addresses, every integer width, page size and history of lookups, looking up an id that was written returns exactly its index and its addresses, and looking up an id that was never written fails with a lookup error. "
  "The pages used for lookups cover every row exactly once, rows are ordered by id, and reading everything returns exactly the rows written, whatever was looked up before. "
  "A table whose header is truncated or disagrees with the expected integer width or number of addresses is rejected.",
  ["inputs", "histories", "configurations"], "every table, page size, integer width and lookup history",
  "off-by-one errors at page boundaries appear only for particular id values, page sizes and lookup orders",
  [B + "quantum_graph/_multiblock.py"], [("sorted fixed-size rows, paging, binary search over page bounds", B + "quantum_graph/_multiblock.py AddressRow, AddressWriter, AddressReader")], TECH,
  note="row encode/decode, paging, page reading and binary search proved; AddressWriter.write/read_all bounded")
P("P11", "Task metadata keeps every key in one place and survives storage unchanged",
  "For every history of assignments, additions, deletions and lookups with plain or dotted keys, task metadata behaves as a nested mapping: each key holds either one value, one homogeneous list or one nested mapping, a lookup returns the value last stored (the last element for a list), and no operation affects any other key. "
  "An assignment, addition or deletion that is rejected leaves the metadata unchanged. "
  "Writing the metadata out as JSON or as a dictionary and reading it back yields the same keys with values of the same type and value, including non-finite numbers.",
  ["inputs", "histories"], "every sequence of operations, every key and every supported value",
  "the exclusivity of slots and the rejection paths depend on the previous history of the key; tests exercise a few sequences",
  [B + "_task_metadata.py"], [("three disjoint slot dictionaries", B + "_task_metadata.py TaskMetadata.__setitem__/add/__delitem__/__getitem__/getArray")], TECH,
  note="mapping operations proved for all histories (slot-disjointness invariant); value conversion and JSON round trip bounded",
  state=["TaskMetadata.scalars", "TaskMetadata.arrays", "TaskMetadata.metadata"])
P("P08", "A running task reads and writes only datasets of its own quantum",
  "Whatever sequence of reads and writes a task performs, the quantum context reads only predicted inputs of the quantum and writes only its regular predicted outputs, never its log or metadata dataset; any other dataset, even one of the same type and data id, is refused before the data store is touched. "
  "Every dataset read is recorded as provenance input and provenance never names a dataset that is not an input; every dataset written carries the provenance and is listed as written, and nothing else is. "
  "Answers come back in the structure of the request, one per dataset, a write with differing numbers of values and datasets is refused without writing, and absent values are skipped.",
  ["inputs", "histories"], "every quantum, every history of get/put calls in every form (single, list, connection struct), failing data store calls",
  "containment must hold for every dataset a task can name and after every previous failure; tests use a few matching datasets",
  [B + "_quantumContext.py"], [("membership sets built once, checked before every store access", B + "_quantumContext.py QuantumContext.__init__/_get/_put/get/put/_checkMembership")], TECH,
  note="construction and the single and list forms of get and put proved; the connection-struct form bounded; butler calls by assumed contract",
  state=["QuantumContext.allInputs", "QuantumContext.allOutputs", "QuantumContext.outputsPut"])
P("P09", "A caching butler answers exactly what the butler it wraps would answer",
  "For every history of writes, reads, existence queries and deletions, successful or failing, and every choice of cached dataset types, reading through the caching butler returns what reading from the wrapped butler would return, or fails when that would fail. "
  "Existence queries answer every requested dataset with its true state, also after failed writes and deletions, and deletions reach the wrapped butler for exactly the given datasets. "
  "Unless copying was disabled for the dataset type, changing a returned object never changes what later reads return.",
  ["inputs", "histories"], "every history of put/get/stored_many/pruneDatasets and every cache configuration",
  "staleness appears only for particular sequences (failed put, delete after read, alternating datasets of one type)",
  [B + "caching_limited_butler.py"], [("cache holds at most one faithful copy per dataset type", B + "caching_limited_butler.py CachingLimitedButler.get/put/stored_many/pruneDatasets")], TECH,
  note="get, put, stored_many and pruneDatasets proved to keep the cache faithful; copying by InMemoryDatasetHandle bounded; callers are assumed not to modify an object after putting it",
  state=["CachingLimitedButler._cache"])
P("P10", "A blocking butler reports a dataset missing only after its timeout has elapsed",
  "For every arrival time of every dataset, a read or existence query through the blocking butler reports a dataset as missing only when more than the timeout configured for its (parent) dataset type has passed since the call, never when that timeout is infinite, and never when the dataset became available before the timeout and stayed. "
  "Datasets without a configured timeout are not waited for, available datasets are answered without waiting, and failures other than a missing dataset are passed on at once. "
  "Existence queries answer exactly the requested datasets.",
  ["inputs", "schedules"], "every pattern of dataset arrival and disappearance times, timeouts and request sizes",
  "the outcome depends on arrival times relative to polls and deadlines; tests use one or two real-time cases",
  [B + "blocking_limited_butler.py"], [("deadline computed from call start, per dataset type", B + "blocking_limited_butler.py BlockingLimitedButler.get/stored_many")], TECH,
  note="no early give-up and faithful answers proved for every clock; no-miss before the deadline, promptness and forwarding bounded under a virtual clock")

P("P12", "A pipeline written as YAML and read back is the same pipeline",
  "For every pipeline, writing it out as YAML (as a string or to a file) and reading it back gives a pipeline with the same description, instrument, parameters, tasks in the same order with the same config overrides, labeled subsets, steps and contracts. "
  "Values keep their type, including strings that look like other types and multi-line text, and writing does not change the pipeline.",
  ["inputs"], "every pipeline: any labels, config values, multi-line text, subsets, steps and contracts",
  "which texts and values survive depends on YAML quoting and on every attribute being written; tests compare a few documents",
  [B + "pipelineIR.py"], [("to_primitives/from_primitives and PipelineIR reading", B + "pipelineIR.py ContractIR, LabeledSubset, ConfigIR, StepIR, PipelineIR.to_primitives/_read_tasks/_read_contracts/_read_labeled_subsets/_read_step_declaration")], TECH,
  note="what each part writes, and reading of subsets, proved for all inputs; PipelineIR's own reading and PyYAML bounded")
P("P13", "Imported pipelines are combined without losing or duplicating anything",
  "For every pipeline with imports, the combined pipeline has exactly its own tasks and the tasks selected from each import, where include and exclude lists may name tasks or labeled subsets and renamed tasks appear under their new label. "
  "A local task of the same class adds its config overrides after the imported ones and a local task of another class replaces the imported one; local parameters and subsets override imported ones, and contracts and steps are kept unless disabled. "
  "Duplicate labels between imports, labels shared by a task and a subset, conflicting steps or instruments, subsets naming missing tasks, and contradictory options are refused with a ValueError.",
  ["inputs", "configurations"], "every tree of imported pipelines and every combination of import options",
  "options interact (rename with include, exclude with subsets, overrides with data ids); tests try a few combinations",
  [B + "pipelineIR.py"], [("import selection and merging", B + "pipelineIR.py ImportIR.toPipelineIR, PipelineIR.merge_pipelines, ConfigIR.maybe_merge")], TECH,
  note="selection without renaming, merging of config blocks and the final consistency checks proved; PipelineIR.merge_pipelines and renaming bounded (too many branches for the prover's time limit)")
P("P14", "A pipeline reduced to some labels has exactly those tasks and stays consistent",
  "For every pipeline and every set of task and subset labels, reducing the pipeline gives exactly the named tasks and the tasks of the named subsets, unchanged, and labels that are neither tasks nor subsets are refused. "
  "When incomplete subsets are dropped, exactly the complete non-empty subsets remain; when they are edited, every subset remains with exactly its remaining tasks. "
  "Steps remain exactly for remaining subsets, contracts remain exactly if they name no removed task, and the original pipeline is not changed.",
  ["inputs"], "every pipeline, label set and subset mode",
  "the result depends on how labels, subsets, steps and contracts overlap; tests use a few small pipelines",
  [B + "pipelineIR.py"], [("label expansion and pruning", B + "pipelineIR.py PipelineIR.subset_from_labels, PipelineIR._remove_contracts")], TECH,
  note="both modes proved for all pipelines; the regular expression that finds a label in a contract is bounded")

P("P19", "Edits of a quantum graph under construction keep nodes, edges and task listings consistent",
  "For every sequence of edits of a quantum graph skeleton, the nodes, edges, per-task quanta and per-dataset attributes are exactly those the documented meaning of each edit gives: adding a node or edge affects nothing else, removing a quantum removes it from its task's quanta, "
  "with its outputs exactly if asked, removing datasets removes exactly those and their edges, only unconnected datasets that are not global outputs are removed as orphans, merging another skeleton keeps the quanta of both, "
  "and attaching references or data IDs changes only the node named. Quanta listed for a task always have nodes in the graph.",
  ["histories"], "every sequence of skeleton edits over every set of tasks and keys",
  "the bookkeeping is spread over one graph and several side tables that every edit must keep in step; tests build a few fixed skeletons",
  [B + "quantum_graph_skeleton.py"], [("skeleton edits", B + "quantum_graph_skeleton.py QuantumGraphSkeleton.update, remove_quantum_node, remove_orphan_datasets, add_input_edge, set_dataset_ref, set_data_id")], TECH,
  note="pruning of unanchored quanta and extraction of overall inputs are bounded only; networkx.DiGraph by assumed contract")

P("P20", "Existing outputs decide which quanta are skipped, re-run or refused",
  "For every pipeline, data and set of existing outputs, a quantum is left out of a new quantum graph as already done exactly if its metadata exists in the collections to skip for, unless retained dataset types are given and a quantum that runs needs, directly or through others re-run, an output of it that is not retained. "
  "Outputs of skipped quanta appear as inputs exactly if they exist, as the existing datasets; a quantum that runs keeps an input exactly if it exists or will be produced. "
  "If any potential output of a quantum that runs is already in the output run, the build is refused unless clobbering, and then the output keeps the identity of the existing dataset.",
  ["inputs", "histories"], "every graph, set of existing outputs, retained types and clobber flag",
  "decisions spread through the graph and depend on how histories of partial runs overlap with the graph's shape; tests use chains of up to three tasks with one quantum each",
  [B + "quantum_graph_builder.py"], [("skip decisions", B + "quantum_graph_builder.py QuantumGraphBuilder._compute_skip_decision, _apply_skip_decision, _unskip_ancestors, _resolve_task_quanta, _update_quantum_for_adjust"),
                                     ("registry lookups", B + "all_dimensions_quantum_graph_builder.py AllDimensionsQuantumGraphBuilder._find_followup_datasets")], TECH,
  note="decision functions proved for all graphs; registry queries, pattern expansion and the order of the passes are bounded (whole builds in an in-memory repository)")

P("P05", "A predicted quantum graph survives storage, partial reading and changes of its output run",
  "For every predicted quantum graph, writing it and reading it back in full, or any subset of its quanta in any order and number of steps, gives the same quanta: id, task, data id and, per connection, the same datasets with their ids, runs and data ids, as well as the same init-inputs and init-outputs. "
  "Two quanta depend on each other exactly if an output of one is an input of the other, whichever way the graph was read, and the counts in the header equal the actual numbers. "
  "Asking for a quantum that is not in the graph raises, a graph of which only part has been read is refused when written, and update_output_run gives every quantum and output a new id and the new run, consistently where outputs are inputs of other quanta or tasks, and leaves every other input unchanged.",
  ["inputs", "histories"], "every predicted graph, every sequence of reads and every choice of quanta",
  "graphs are read in parts, by id, in any order, and rewritten under new runs; tests read a few fixed graphs in full",
  [B + "quantum_graph/_predicted.py", B + "quantum_graph/_common.py"],
  [("datasets of a quantum", B + "quantum_graph/_predicted.py PredictedQuantumDatasetsModel.iter_input_dataset_ids, iter_output_dataset_ids, iter_dataset_ids"), ("reading", B + "quantum_graph/_predicted.py PredictedQuantumGraphReader.read_quantum_datasets, read_thin_graph, read_init_quanta, read_execution_quanta, read_all"), ("writing and counts", B + "quantum_graph/_predicted.py PredictedQuantumGraphComponents.write, set_header_counts, set_thin_graph, update_output_run"), ("references", B + "quantum_graph/_predicted.py PredictedQuantumGraph.get_init_inputs, get_init_outputs, _make_init_ref, _make_general_ref, _build_execution_quantum_refs")], TECH,
  note="set_thin_graph, update_output_run, the assembly of the networkx graphs and (de)serialisation are bounded only; graphs in the old .qgraph format are not covered")

P("P06", "Before running a quantum, existing outputs are skipped, refused or removed, never mixed",
  "For every set of outputs of a quantum that already exist and every combination of the skip-existing, clobber-outputs and assume-none-exist options: with skip-existing the quantum is skipped exactly if its metadata or all of its outputs exist, and then nothing is run, written or removed. "
  "Otherwise, if any output exists, all existing outputs are removed before running when clobbering and the quantum is refused with an error, running and changing nothing, when not clobbering. "
  "A log left by an earlier attempt is carried over into the new log before it is removed, and nothing but the quantum's own outputs is ever removed.",
  ["inputs", "configurations", "histories"], "every set of existing outputs, every option combination, any number of attempts",
  "which outputs a crashed attempt leaves behind is arbitrary; tests try complete outputs and one partial set",
  [B + "single_quantum_executor.py"], [("existence checks before execution", B + "single_quantum_executor.py SingleQuantumExecutor._check_existing_outputs, _execute_with_limited_butler")], TECH,
  note="_check_existing_outputs proved for every option and existence pattern over the butler's stored_many/pruneDatasets contracts; logs across attempts bounded")
P("P07", "A quantum's stored metadata, log and outcome say what really happened",
  "For every way an attempt to run a quantum can end, metadata is stored exactly if the attempt counts as a success, and the log always records the attempt. "
  "A failure, in constructing the task or in running it, reaches the caller as the original exception and is recorded with its type and message together with the metadata gathered so far; a task that reports nothing to do, or partial outputs unless these are to be raised, is a success with the matching caveat flags. "
  "The recorded outputs are exactly those written, the caveats say whether none or only some outputs were written, the task sees exactly the inputs that exist or are known to exist, and a quantum left with too few inputs is not run but stored as having no work. A butler made for the attempt is closed however it ends.",
  ["inputs", "histories", "faults"], "every exception at every step, every set of written outputs and missing inputs, any number of attempts",
  "an exception can come from any step and each leaves a different trail; tests cover success and one failure",
  [B + "single_quantum_executor.py", B + "log_capture.py"], [("outcome of an attempt", B + "single_quantum_executor.py SingleQuantumExecutor._execute_with_limited_butler, _run_quantum, _write_metadata, _execute, _should_assume_exists")], TECH,
  note="outcome functions proved over every exception point; the pruning of missing inputs (_updated_quantum_inputs) and log capture bounded")

P("P17", "Dataset types are resolved from all their connections together, or refused",
  "For every set of tasks and every registered definition, resolving a pipeline graph gives each dataset type the registered definition if there is one, else its producer's, else the one shared by all connections that read it whole, and every connection is compatible with it; otherwise resolution is refused with the documented error and no dataset type changes. "
  "More than one producer is always refused, also when asking for the producer; a dataset type is a prerequisite for all its readers or none and never if produced; it constrains the initial query exactly if it is not produced and no reader can do without it. "
  "Each connection sees its own component and storage class, and exported graph edges carry the names and init flag of their own connection.",
  ["inputs"], "every set of connections to a dataset type and every registered definition",
  "the outcome depends on all connections of all tasks at once and must not depend on the order tasks were added in; tests resolve fixed small pipelines",
  [B + "pipeline_graph/_dataset_types.py", B + "pipeline_graph/_edges.py", B + "pipeline_graph/_pipeline_graph.py"],
  [("resolution of one dataset type", B + "pipeline_graph/_dataset_types.py DatasetTypeNode._from_edges, generalize_ref"), ("resolution per connection", B + "pipeline_graph/_edges.py ReadEdge._resolve_dataset_type, WriteEdge._resolve_dataset_type, adapt_dataset_ref"), ("whole graph", B + "pipeline_graph/_pipeline_graph.py PipelineGraph.resolve, producing_edge_of, consuming_edges_of, make_xgraph")], TECH,
  note="DatasetType/StorageClass compatibility and networkx by assumed contract; visualization_only resolution is not covered; unregistered skypix placeholders read with differing definitions are left unspecified")

P("P18", "Steps of a pipeline are accepted exactly if they can be run in order, and every order respects dependencies",
  "For every pipeline graph and every definition of steps, resolve accepts the steps exactly if each is a task subset, every task is in exactly one of them, no step writes (when run or when its tasks are constructed) what an earlier step reads, and the tasks and their outputs have the sharding dimensions; otherwise it raises InvalidStepsError. "
  "Afterwards tasks, dataset types and graph nodes come in an order in which everything follows what it depends on and earlier steps come first, and which does not depend on the order of construction. "
  "get_task_step names the step a task is in, raises InvalidStepsError without steps, and UnresolvedGraphError after any change of steps, members, sharding dimensions or tasks until the next resolve. Copies, pickles and stored graphs keep steps, order and verification, and share nothing with the original.",
  ["inputs", "histories"], "every pipeline, every step definition and every sequence of edits",
  "steps interact with every input and output of every task and with every later edit; tests verify a few fixed step lists",
  [B + "pipeline_graph/_task_subsets.py", B + "pipeline_graph/_pipeline_graph.py", B + "pipeline_graph/io.py"],
  [("definitions", B + "pipeline_graph/_task_subsets.py StepDefinitions.append, remove, assign, clear, set_dimensions, get_dimensions, copy, verified"), ("members", B + "pipeline_graph/_task_subsets.py TaskSubset.add, discard, is_step"), ("verification and lookup", B + "pipeline_graph/_pipeline_graph.py PipelineGraph._resolve_step_flow, _resolve_step_dimensions, get_task_step, _reset, remove_task_subset, sort, copy"), ("storage", B + "pipeline_graph/io.py SerializedPipelineGraph.serialize, deserialize")], TECH,
  note="topological sorting by networkx, the order itself, copies and storage are bounded only; sort() before resolve does not consider steps; a graph left half resolved by a refused resolve is not required to be storable")

P("P15", "A task selection expression selects exactly the tasks it denotes",
  "For every pipeline graph and every expression, select_tasks returns exactly the tasks the expression denotes by set semantics: a task label, the members of a subset, the producer of a dataset type, ancestors or descendants of a task or dataset type (itself or its producer included exactly for <= and >=), and complement, intersection and union with ~ binding tightest and | loosest. "
  "A label that names nothing, or several things without a T:, D: or S: prefix, a search from a subset, the documented forbidden uses of init-outputs, and malformed text are refused with InvalidExpressionError, and nothing else is. "
  "select returns a graph of exactly those tasks with their dataset types as resolved, sorted if the original was, and leaves the original unchanged.",
  ["inputs"], "every graph and every expression",
  "expressions compose without bound over arbitrary graphs; tests evaluate a handful on one pipeline",
  [B + "pipeline_graph/_pipeline_graph.py", B + "pipeline_graph/expressions.py"],
  [("evaluation", B + "pipeline_graph/_pipeline_graph.py PipelineGraph.select_tasks, select, _select_expression, _select_identifier, _select_task_ancestors, _select_task_descendants, _select_dataset_type_ancestors, _select_dataset_type_descendants"), ("grammar", B + "pipeline_graph/expressions.py parse")], TECH,
  note="the PLY grammar, select and the projection to the task graph are bounded only; reachability in networkx by assumed contract")
