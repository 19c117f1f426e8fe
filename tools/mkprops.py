#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
G='numerous/engine/model/graph_representation/'
L='numerous/engine/model/lowering/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

prop('C01','Computations are scheduled once each, after everything they depend on',
 'For every dependency graph of equations, sums and variables, the execution order the engine computes lists every node exactly once. '
 'When the graph has no cycle every node comes after all nodes it depends on; when it has a cycle, no node is lost or repeated and the nodes outside and upstream of the cycle are still in dependency order. '
 'Asking for the order again, on the same graph, gives an order with the same guarantees.',
 ['inputs','histories'],'every finite directed graph (up to the documented per-node fan-in/fan-out limit), any edge insertion order, any number of repeated calls',
 'The tests only run a few fixed models whose graphs are small, mostly acyclic and sorted once; no test looks at the order itself.',
 [G+'lower_graph.py',G+'graph.py'],
 [('Kahn topological sort over in-degree counters','_Graph.in_degree/make_children_map/get_zero_indegree/topological_sort'),('cycle completion','Graph.topological_nodes')],
 [('indegree_map','number of not yet scheduled predecessors','_Graph'),('children','adjacency rows: count followed by children','_Graph')],['Graph.topological_nodes()'])

prop('C02','The dependency graph stores exactly what was added and queries see exactly that',
 'Adding a node under a new key gives it the next free number, adding it under an existing key returns the existing number and (unless replacement was asked for) leaves the stored node alone; the key-to-number and number-to-key maps stay inverse to each other. '
 'Adding an edge records its end points and its data under the next edge number and changes no other edge. '
 'Asking for the edges of a given kind that enter or leave a node returns exactly the live edges of that kind at that node, in insertion order, for every node including the first one, and a copied graph is equal to the original.',
 ['inputs','histories'],'every sequence of node/edge additions, removals and queries within the preallocated capacity',
 'Unit tests exercise the graph only through whole models; node number 0, removed edges, re-added keys and the frame (nothing else changed) are not observed.',
 [G+'graph.py'],[('add_node/add_edge/remove_*','Graph'),('per-node edge lists','Graph.build_node_edges/get_edges_type_for_node_filter'),('edge existence query','Graph.has_edge_for_nodes'),('copy','Graph.clone')],
 [('node_map/key_map/nodes','key<->number bijection and stored nodes','Graph'),('edges/edges_c','edge end points and edge data by edge number','Graph')],['Graph queries'])

prop('C03','Every variable has one slot and values move by name, never by accident of order',
 'Every non-global variable of a model gets exactly one slot, slots are numbered densely from zero in variable order, and global variables take none. '
 'The state vector and the derivative vector list exactly the slots of the state and derivative variables in increasing slot order, so entry i of the derivatives belongs to entry i of the states. '
 'Setting, updating, refreshing or resetting variables by name writes each value to that variable\'s own slot and leaves all other slots alone, and reading returns each variable\'s own slot value.',
 ['inputs','configurations'],'every set and order of variables (states, derivatives, parameters, globals, temporaries) and every values dictionary',
 'Tests use a handful of models with few variables and mostly observe trajectories; a swapped or shifted slot shows only for particular orders of globals, temporaries and states.',
 [L+'equations_generator.py','numerous/engine/model/model.py'],
 [('slot numbering','EquationGenerator._parse_variables'),('state/derivative index arrays','EquationGenerator.generate_equations'),('name based writes','Model.set_variables/update_variables/update_all_variables/update_local_variables/_reset')],
 [('values_order','variable id -> slot','EquationGenerator'),('state_idx/derivatives_idx','slots of states/derivatives','Model')],['Model.get_variables','Model.variables','derivative evaluation'])

prop('C04','Generated Python kernels assign, sum and call exactly as declared',
 'In the interpreted backend a mapping assigns its target the value of its single source, a sum mapping assigns its target the sum of all its sources, each counted once, and an equation call passes every declared argument slot in order and stores every result in the slot of the matching target. '
 'Vectorised calls over a set touch, for element i, exactly element i\'s slots. '
 'No generated statement reads or writes any other slot.',
 ['inputs','programs'],'every number and order of sources, targets, arguments, globals and set sizes',
 'Tests of the generated code check a few fixed argument lists; sums over many sources, repeated sources and multi-target calls are not enumerated.',
 [L+'ast_builder.py'],[('sum and mapping statements','ASTBuilder.add_mapping/_generate_sum_left'),('equation calls','ASTBuilder._create_assignments/add_call/_process_argument'),('set calls','ASTBuilder.add_set_call/_generate_set_call_body')],
 [('body','generated kernel statements','ASTBuilder')],['generated kernel source'])

prop('C05','Generated LLVM kernels assign, sum and call exactly as declared',
 'In the compiled backend a mapping stores into each of its targets the value of its single source or the sum of all its sources, each counted once. '
 'An equation call passes for every argument the value (or, for a target, the address) of that argument\'s own slot, in order, and the kernel finally copies each state into its own slot and returns each derivative at its own position. '
 'No other slot is written.',
 ['inputs','programs'],'every number and order of sources, targets, arguments, states and derivatives',
 'Tests build a few fixed kernels; the end-to-end compiled simulations cannot even run with the installed versions, so nothing checks other argument counts.',
 [L+'llvm_builder.py'],[('mappings','LLVMBuilder.add_mapping/_load_args/_store_to_global_target'),('calls','LLVMBuilder.add_call/_create_target_pointer/_get_target_pointers'),('state and derivative transfer','LLVMBuilder.__init__/store_variable/generate')],
 [('values','variable name -> address already materialised','LLVMBuilder')],['kernel, vars_r, vars_w'])

prop('C06','The solver sees and sets exactly the model\'s states, derivatives and Jacobian',
 'Setting the state vector and reading it back returns the same vector and changes no variable that is not a state. '
 'Evaluating the model at time t hands t to the time variable and returns exactly the derivatives the compiled equations produce for the given states. '
 'The numerical Jacobian has, at row i and column j, the forward difference quotient of derivative i with respect to state j, and the implicit-step residual is the state plus the weighted history minus step size times coefficient times derivative.',
 ['inputs'],'every state vector, time, step size and order',
 'Tests only compare final trajectories; a transposed Jacobian or a wrong history weight still converges on the test models.',
 ['numerous/engine/model/compiled_model.py','numerous/engine/simulation/solver_interface.py'],
 [('state transfer','CompiledModel.get_states/set_states'),('derivative evaluation','CompiledModel.func'),('Jacobian and residual','CompiledModel.vectorized_full_jacobian/get_g'),('delegation','NumerousEngineModelInterface')],
 [('global_vars[0]','current time','CompiledModel')],['solver callbacks'])

prop('C07','The recorded history loses nothing, repeats nothing and never overflows',
 'Every sample the solver records (at each step, after each state event and after each time event) ends up exactly once and in order, with its own time and the then current values of all variables, in the history table. '
 'However many steps and events occur and however small the buffer is, the in-memory buffer is never written beyond its capacity: a full buffer is always emptied into the table before the next sample. '
 'Emptying the buffer changes no variable value.',
 ['histories','configurations'],'every interleaving of steps, state events, time events and buffer flushes, every buffer size',
 'Tests use buffers larger than the run or one fixed small size without time events; only one interleaving is ever sampled.',
 ['numerous/engine/model/compiled_model.py','numerous/engine/simulation/solver_interface.py','numerous/utils/historian.py','numerous/engine/model/model.py'],
 [('recording','CompiledModel.historian_update/is_store_required/historian_reinit'),('flush decision','NumerousEngineModelInterface.historian_update/post_step/post_state_event/post_time_event'),('flush','NumerousEngineEventHandler.handle_solve_event, Model.create_historian_df/generate_not_nan_history_array'),('sizing','Historian.get_historian_max_size')],
 [('historian_ix','next free column','CompiledModel'),('historian_data','time row followed by one row per variable','CompiledModel')],['model.historian_df'])

prop('C08','Externally driven variables carry the data table\'s value at the current time',
 'After the engine applies external data at time t every externally mapped variable holds the value of its own column at t: the linear interpolation between the neighbouring rows when linear was chosen, the value of the last row at or before t when piecewise was chosen. '
 'This holds whatever the variables held before, including repeated values, zero values and after a reset, and no unmapped variable is touched directly. '
 'New data is requested exactly when t lies outside the time range currently loaded.',
 ['inputs','histories'],'every table, time, interpolation choice, previous variable value and order of calls',
 'Tests sample a few tables with changing data; constant data, zero data and repeated or reset runs are not covered.',
 ['numerous/engine/model/compiled_model.py','numerous/engine/simulation/solver_interface.py'],
 [('sampling','CompiledModel.map_external_data, step_approximation, closest_time_idx'),('refresh decision','CompiledModel.is_external_data_update_needed'),('reload','NumerousEngineEventHandler._load_external_data, CompiledModel.update_external_data')],
 [('external_df_idx','table and column of mapping i','CompiledModel'),('external_idx','slot of mapping i','CompiledModel')],['variable values during simulation'])

prop('C09','Each external column drives exactly the variable it names',
 'Every variable whose full name equals a mapped column name is driven by exactly that column of exactly that table with the interpolation declared for that column; every other variable is driven by none. '
 'The association of variable, table, column and interpolation stays aligned whatever the number of tables and columns and however similar the names are.',
 ['inputs','configurations'],'every collection of tables, columns, names (including names contained in each other) and interpolation choices',
 'Tests map one or two columns with unrelated names from one or two tables.',
 ['numerous/engine/system/external_mappings/external_mappings.py','numerous/engine/model/model.py'],
 [('column lookup','ExternalMapping.add_df_idx/is_mapped_var/store_mappings'),('per model association','Model._assembly_tail')],
 [('external_df_idx/interpolation_info','per mapped variable: (table, column) and linear flag','ExternalMapping')],['external data during simulation'])

prop('C10','Chunked loading of a data file never hides a row the simulation needs',
 'Loading a file in chunks for time t returns a contiguous block of the file\'s rows, unchanged and in order, that contains the row at or before t and the row after t whenever the file has them. '
 'Successive loads for increasing times never skip a row lying between them, a load for an earlier time starts again from the top, and chunk size changes only how much is loaded, never the values obtained at t.',
 ['inputs','histories'],'every file, chunk size, position of the time column and sequence of requested times',
 'Tests use two chunk sizes, one file layout and monotone times.',
 ['numerous/utils/data_loader.py','numerous/engine/system/external_mappings/external_mappings.py'],
 [('chunk selection','CSVDataLoader._valid/load'),('column renaming on reload','ExternalMappingElement.add_df')],
 [('_skiprows','file lines to skip on the next load','CSVDataLoader')],['loaded data frame'])

prop('C11','Event i is decided by its own condition and fires its own action',
 'With any number and order of events, entry i of the evaluated conditions is the condition function of event i applied to the current time and variables, entry i of the directions is event i\'s direction, and firing event i runs exactly event i\'s action. '
 'Inside these functions every variable name, written from the point of view of the model or of the item that owns the event, refers to that variable\'s own slot, and an unknown name is rejected. '
 'External events in between do not shift the others.',
 ['inputs','configurations'],'every list of state and time events, internal and external, at model or item level',
 'Tests define at most two or three events, rarely mix external and internal ones and never enough to show a shifted index.',
 ['numerous/engine/model/events.py','numerous/engine/simulation/solver_interface.py','numerous/engine/model/model.py'],
 [('condition list','generate_event_condition_ast'),('action dispatch','generate_event_action_ast'),('name resolution','VariablesVisitor/replace_path_strings'),('solver events','EventFactory')],
 [],['generated condition/action functions'])

prop('C12','An event action changes exactly the variables it assigns',
 'When an event fires, after its action every variable has the value the action left it with: changed variables, state or not, wherever they are stored, take effect in the model and the solver continues from the changed states; unchanged variables keep their values. '
 'Actions of an item\'s events see and change the item\'s variables under their local names, including those of items whose names are part of other names.',
 ['inputs','histories'],'every action, set of variables and position of states among the variables',
 'Tests change one or two variables of models whose layout happens to make the indices agree.',
 ['numerous/engine/simulation/solver_interface.py'],
 [('internal actions','EventFactory._wrap_internal_event'),('external actions','EventFactory._wrap_external_event'),('condition evaluation without side effects','EventFactory._wrap_state_event')],
 [],['variables after an event'])

prop('C13','Mapped variables read through to their source and bad assignments are refused',
 'Reading a variable gives the value of its source when it is mapped, the sum of its sources when it is sum-mapped, and its own value otherwise, following chains of mappings. '
 'Assigning a variable to a namespace entry records that mapping on that entry only; a variable cannot be mapped to itself, a sum cannot be added to an already mapped variable, and a non-numeric value is refused leaving the old value.',
 ['inputs','histories'],'every acyclic arrangement of mappings and sum mappings and every assigned value',
 'Tests use one-level mappings and a few values.',
 ['numerous/engine/variables.py','numerous/engine/system/namespace.py'],
 [('mapping declaration','MappedValue.add_mapping/add_sum_mapping/__iadd__, VariableNamespaceBase.__setattr__'),('reading','MappedValue.get_value'),('value checks','Variable.value')],
 [],['Variable.get_value()','Variable.value'])

prop('C14','Names are unique where registered and bindings hold one item each',
 'Within a system no two registered items share a name, within an item no two namespaces share a name, within a connector no two bindings share a name: the offending registration is refused and nothing already registered changes. '
 'A binding accepts exactly one item, ports accept only registered items, typed containers accept only objects of their type, and binding to a name that does not exist is refused.',
 ['histories','inputs'],'every sequence of registrations, valid or not',
 'Tests attempt one duplicate each and do not look at what remains registered afterwards.',
 ['numerous/engine/system/subsystem.py','numerous/engine/system/item.py','numerous/engine/system/connector.py','numerous/engine/system/connector_item.py','numerous/engine/system/binding.py','numerous/utils/dict_wrapper.py'],
 [('item registration','Subsystem.register_item/add_port'),('namespace registration','Item.register_namespace'),('bindings','Connector.create_binding, Binding.add_binding, ConnectorItem.bind'),('typed dictionary','_DictWrapper')],
 [('registered_items','items by id','Subsystem')],['registered items, namespaces, bindings'])

prop('C15','Every variable is reachable under its full path from every enclosing system',
 'For every nesting of systems, items and namespaces the name of a variable as seen from an enclosing system is the dot-joined chain of names from that system down to the variable, and extending paths twice with the same pair of levels adds nothing. '
 'Looking an item up by its path, with any delimiter, returns exactly the item at that path, or nothing when there is none.',
 ['inputs','configurations'],'every hierarchy depth and shape, order of registration and delimiter',
 'Tests use two or three levels and the default delimiter.',
 ['numerous/engine/variables.py','numerous/engine/system/item_path.py','numerous/engine/system/subsystem.py','numerous/engine/system/item.py'],
 [('path extension','VariablePath.extend_path, Subsystem.update_variables_path'),('lookup','ItemPath, Subsystem.get_item, Item.get_item')],
 [('path','system id -> names of the variable as seen from there','VariablePath')],['Model.aliases','Subsystem.get_item'])

prop('C16','Logged columns are exactly the variables at or above the log level',
 'The history table has, for every variable whose log level is at least the model\'s, a column holding that variable\'s own recorded values, retrievable under each of its names, and none for variables below the level; time is always present. '
 'Looking a column up under any alias returns that variable\'s data and never another\'s.',
 ['inputs','configurations'],'every set of variables, log levels, aliases and recorded data',
 'Tests check three levels on one model.',
 ['numerous/engine/model/model.py','numerous/engine/model/aliased_dataframe.py'],
 [('alias tables','Model._assembly_tail'),('history columns','Model.create_historian_dict'),('alias lookup','AliasedDataFrame')],
 [('logged_variables','name -> slot','Model')],['model.historian_df'])

prop('C17','Generated equation functions compute what the equation source says',
 'For every supported equation (assignments, augmented assignments, arithmetic, comparisons, conditional expressions and statements, calls, tuples and subscripts) the function generated for it returns, for all inputs, the values that executing the equation\'s own source assigns to its variables. '
 'Arguments and results are passed in one consistent order, each exactly once. '
 'An unsupported construct is refused rather than compiled to something else.',
 ['programs','inputs'],'every equation in the supported language and every input value',
 'Tests compare a fixed list of small functions with their expected text.',
 ['numerous/engine/model/ast_parser/ast_visitor.py','numerous/engine/model/ast_parser/equation_from_graph.py',L+'utils.py'],
 [('source to graph','AstVisitor'),('graph to source','node_to_ast/function_body_from_graph/process_assign_node'),('argument order','Vardef')],
 [],['generated function'])

prop('C18','Every declared contribution to a variable is summed exactly once',
 'When several equations or mappings feed the same variable, the engine computes that variable as the sum of all of them, each exactly once, with the contribution of an equation going through its own temporary; a variable with a single contribution is assigned directly and one with none is left alone. '
 'For sets each source element contributes to exactly the declared target element.',
 ['configurations','programs'],'every pattern of equations and mappings feeding variables',
 'Tests combine at most two contributions in a few patterns.',
 [G+'mappings_graph.py','numerous/engine/model/ast_parser/parser_ast.py',L+'equations_generator.py'],
 [('collecting contributions','process_mappings, MappingsGraph.remove_chains'),('temporaries','MappingsGraph.create_assignments'),('sum nodes','MappingsGraph.add_mappings, EquationGenerator._process_sum_node')],
 [('vars_assignments','target node -> contributing nodes','MappingsGraph')],['values of summed variables'])

prop('C19','Resetting a simulation reproduces the first run',
 'After a reset every variable, state and history buffer is what it was right after the model was built, so a second simulation of the same model gives the same trajectory as the first (where data are loaded in chunks: up to the accuracy of the solver). '
 'Resetting one model never changes another, and two models built in one process never use each other\'s equations or values.',
 ['histories'],'every sequence of building, simulating and resetting models in one process',
 'Tests reset one model once and never interleave two models.',
 ['numerous/engine/model/model.py','numerous/engine/simulation/simulation.py','numerous/engine/model/compiled_model.py'],
 [('initial values','Model._reset/_initial_variables_dict'),('reset','Simulation.reset, CompiledModel.historian_reinit'),('per model kernel','Model.lower_model_codegen/_generate_compiled_model')],
 [],['second run of the same model'])

prop('C20','Table lookup is bilinear inside the grid and clamped outside',
 'For every two-dimensional table on a uniform grid and every query point the interpolated value is the bilinear combination of the four surrounding table entries, equal to the entry itself at grid points, and outside the grid the value at the nearest point of the grid. '
 'Only entries of the selected table are ever read.',
 ['inputs'],'every table size, content, position in the shared data array and query point',
 'No test calls it.',
 ['numerous/utils/interpolation/bilinear_interpolation.py'],[('lookup','bilinear_interpolation')],[],['returned value'])

prop('C21','A co-simulated unit exchanges each value with the port it is declared for',
 'For an imported functional mock-up unit every input, output, derivative and event indicator is exchanged through the reference number the unit\'s own description gives to that name. '
 'Units with any number of variables in any order keep names and reference numbers aligned.',
 ['configurations'],'every model description',
 'The tests import two fixed units.',
 ['numerous/engine/system/fmu_subsystem.py','numerous/engine/system/fmu_system_generator/fmu_ast_generator.py'],
 [('code generation','fmu_ast_generator'),('description parsing','FMU_Subsystem')],[],['values exchanged with the unit'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
