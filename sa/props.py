"""The properties: one table from which properties.jsonl, MANIFEST.json and the checks' explanations are generated
(tools_manifest.py), and the functions whose contracts rules/cXX.spec holds (tools_draft.py drafts them)."""

P = []


def p(id, title, statement, over, text, why, files, mech, pats, rule='', state=(), observe=(), assume=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, pats=pats,
                  rule=rule, state=state, observe=observe, assume=assume))


p('C01', 'Every time step runs every phase once, in order, for everyone',
  'Each simulated step performs, in this order and exactly once: the builds scheduled for the step, Tick of every registered listener, '
  'one material and one product exchange, Tock of every listener, Decision of every listener, the decommissions scheduled for the step, '
  'and then the clock advances by one. No step is skipped or repeated until the duration is reached or a kill was requested, a kill takes '
  'effect only at the end of a step, snapshots are taken at the start of a step on request and at the end of the simulation, and the end '
  'of the simulation is recorded with its last step and whether it was terminated early.',
  ['schedules', 'histories', 'configurations'], 'every set of registered listeners and traders, every build/decommission schedule, every duration, and kill or snapshot requests at any point',
  'tests run a handful of short simulations with few agents; the order and completeness must hold for every registration history and schedule',
  ['src/timer.cc', 'src/timer.h'], [('step loop', 'Timer::RunSim'), ('phases', 'Timer::DoBuild/DoTick/DoResEx/DoTock/DoDecision/DoDecom')], [],
  state=[('tickers_', 'registered time listeners', 'src/timer.h')], observe=['agent hooks', 'Finish table'])

p('C02', 'Registration of listeners, traders and agents is exact and paired',
  'Whatever enters the simulation is registered with it exactly once as a time listener, trader or agent of its kind, and leaving it (decommission, stop, or '
  'destruction of a policy) removes exactly that registration and nothing else. Registering again replaces or keeps the entry without '
  'duplicating it, and the per-prototype and per-archetype population counts follow registration and deregistration one for one.',
  ['histories', 'schedules'], 'every sequence of registrations, deregistrations, entries and decommissions of agents and policies',
  'tests register and unregister single objects; pairing must hold along every path of every lifecycle method',
  ['src/timer.cc', 'src/context.h', 'src/context.cc', 'src/facility.cc', 'src/institution.cc', 'src/region.cc', 'src/toolkit/matl_buy_policy.cc', 'src/toolkit/matl_sell_policy.cc'],
  [('register / unregister', 'Timer::RegisterTimeListener, Context::RegisterTrader, Context::RegisterAgent and their counterparts'),
   ('entry and exit hooks', 'Facility/Institution/Region::EnterNotify and Decommission'), ('policies', 'MatlBuyPolicy/MatlSellPolicy Start, Stop')],
  [r'Timer::(Un)?[rR]egisterTimeListener', r'Context::(Un)?[rR]egister(TimeListener|Trader|Agent)', r'Context::(traders|n_prototypes|n_specs)',
   r'(Facility|Institution|Region)::(EnterNotify|Decommission)', r'toolkit::Matl(Buy|Sell)Policy::(Start|Stop|~Matl.*)', r'Timer::(Initialize|Reset|Timer)'],
  state=[('traders_', 'registered traders', 'src/context.h'), ('agent_list_', 'living agents', 'src/context.h'), ('n_prototypes_', 'population per prototype', 'src/context.h')])

p('C03', 'Scheduled builds and decommissions happen at the requested step',
  'A build or decommission scheduled for a step is queued for exactly that step, defaulting to the next step for builds and to the current step for decommissions, and a request for a step that '
  'has already been simulated is refused. A build constructs the prototype under the requested parent and schedules its decommission at the end of its '
  'lifetime; an agent is decommissioned at most once per schedule, a later schedule replaces an earlier one, and an agent that does not allow decommissioning yet is deferred to the next step. '
  'Both kinds of schedule entry are recorded in the output when they are made.',
  ['histories', 'schedules'], 'all sequences of schedule calls at all times and all lifetimes, including re-scheduling an agent and scheduling in the past or present step',
  'tests schedule one or two agents at fixed times',
  ['src/timer.cc', 'src/context.cc', 'src/agent.cc', 'src/facility.cc'],
  [('queues', 'Timer::SchedBuild, Timer::SchedDecom'), ('execution', 'Timer::DoBuild, Timer::DoDecom'), ('recording', 'Context::SchedBuild, Context::SchedDecom')],
  [r'Timer::(SchedBuild|SchedDecom|DoBuild|DoDecom)', r'Context::(SchedBuild|SchedDecom)', r'Facility::CheckDecommissionCondition',
   r'Agent::(lifetime|lifetime_force)'],
  state=[('build_queue_', 'builds by step', 'src/timer.h'), ('decom_queue_', 'decommissions by step', 'src/timer.h')], observe=['BuildSchedule', 'DecomSchedule', 'AgentEntry', 'AgentExit'])

p('C04', 'Agents join and leave a consistent family tree',
  'Building an agent connects it to its parent (appearing exactly once among its children), records its entry with its identity, kind, archetype, prototype, parent, lifetime and '
  'entry time, and notifies it and its parent. Decommissioning records the exit once, tells the parent, closes outstanding time-varying state, detaches it from parent and registries and releases it; a decommissioned or never-built '
  'agent is not reachable from its former parent or children. Cloning copies the configuration of the original but not its identity or position, and ancestry queries follow exactly the parent links.',
  ['histories', 'programs'], 'all sequences of build, clone, re-parenting and decommission over agent trees of any shape',
  'tests build trees of a few agents',
  ['src/agent.cc', 'src/agent.h', 'src/context.cc', 'src/facility.cc', 'src/institution.cc', 'src/region.cc'],
  [('lifecycle', 'Agent::Build, Connect, EnterNotify, Decommission, ~Agent'), ('release', 'Context::DelAgent, ~Context'), ('cloning', 'Agent::InitFrom, Context::CreateAgent')],
  [r'Agent::(Agent|Build|Connect|EnterNotify|Decommission|AddToTable|InitFrom|~Agent|InFamilyTree|AncestorOf|DecendentOf|Snapshot|InfileToDb|InformErrorMsg)',
   r'Agent::(id|prototype|spec|kind|parent|parent_id|children|enter_time|exit_time|context|lifetime|str|PrintChildren|GetTreePrintOuts|BuildNotify|DecomNotify|annotations|schema|version)', r'(Facility|Institution|Region)::(str|InfileToDb|InitInv|Snapshot|SnapshotInv)', r'Context::(DelAgent|CreateAgent|~Context)',
   r'(Facility|Institution|Region)::(Build|InitFrom|Tick|Tock|Facility|Institution|Region)'],
  state=[('children_', 'child agents', 'src/agent.h'), ('parent_id_', 'parent identity', 'src/agent.h')], observe=['AgentEntry', 'AgentExit'])

p('C05', 'Prototypes, recipes, packages and transport units are registered by name',
  'A prototype, recipe, package type or transport unit type added under a name is exactly what a later lookup of that name yields, unknown names are refused with an error rather than defaulted, '
  'and a package or transport unit name cannot be added twice or redefine the reserved default. Each addition is recorded once in the output with its identity and parameters, and agents created from a '
  'prototype are fresh clones registered under it. Simulation parameters given at start are stored and recorded as given.',
  ['histories', 'inputs'], 'all names and all sequences of additions and lookups',
  'tests look up one or two names',
  ['src/context.cc', 'src/context.h'],
  [('registries', 'Context::AddPrototype, AddRecipe, AddPackage, AddTransportUnit'), ('lookups', 'Context::GetRecipe, GetPackage, GetTransportUnit')],
  [r'Context::(AddPrototype|AddRecipe|GetRecipe|AddPackage|GetPackage|RecordPackage|AddTransportUnit|GetTransportUnit|RecordTransportUnit|InitSim|Context|time|sim_id|solver|dt|seed|stride|sim_info|KillSim|Snapshot|NewDatum)',
   r'SimInfo::SimInfo', r'SimInit::LoadRecipes'],
  state=[('protos_', 'prototypes', 'src/context.h'), ('recipes_', 'recipes', 'src/context.h')], observe=['Prototypes', 'Recipes', 'Packages', 'TransportUnits', 'Info'])

p('C06', 'Material operations conserve mass and keep the books',
  'Extracting from a material removes exactly the extracted quantity from it and yields a new material of that quantity and composition, absorbing adds exactly the absorbed quantity (mass-weighting the compositions) and '
  'empties the absorbed one, and transmuting changes the composition but not the quantity. Extracting more than is present (beyond tolerance) is refused, and no operation on untracked '
  'material reaches the output. Decayed composition is never mixed with stale composition when the simulation decays lazily.',
  ['histories', 'inputs'], 'all sequences of create/extract/absorb/transmute/decay over any quantities and compositions',
  'tests cover single operations with fixed numbers',
  ['src/material.cc', 'src/material.h', 'src/resource.cc', 'src/resource.h'],
  [('operations', 'Material::ExtractComp, ExtractQty, ExtractRes, Absorb, Transmute, Create, CreateUntracked, Clone')],
  [r'Material::(Create|CreateUntracked|Clone|Record|ExtractQty|ExtractComp|ExtractRes|Absorb|Transmute|Material|qual_id|type|units|quantity|comp|~Material|prev_decay_time|DecayHeat)',
   r'NewBlankMaterial', r'Resource::(Resource|BumpStateId|state_id|obj_id|Absorb)', r'ResCast'],
  state=[('qty_', 'mass', 'src/material.h'), ('comp_', 'composition', 'src/material.h')])

p('C07', 'Product operations conserve quantity and quality',
  'Extracting from a product removes exactly the extracted quantity and yields a product of that quantity and the same quality; more than is present is refused. Absorbing is allowed only '
  'between products of the same quality, adds exactly the absorbed quantity and empties the absorbed one. Every distinct quality has one identity in the output, recorded exactly once.',
  ['histories', 'inputs'], 'all sequences of create/extract/absorb over any quantities and qualities',
  'tests cover single operations with fixed numbers',
  ['src/product.cc', 'src/product.h'],
  [('operations', 'Product::Create, Extract, ExtractRes, Absorb'), ('quality registry', 'Product::Create')],
  [r'Product::(Create|CreateUntracked|Clone|Record|Extract|ExtractRes|Absorb|Product|qual_id|quality|quantity|type|units)'],
  state=[('qualids_', 'quality identities', 'src/product.h')], observe=['Resources', 'Products'])

p('C08', 'Every tracked resource state has recorded provenance',
  'Each creation, modification, split, combination and packaging of a tracked resource yields a new state identity and one record of it with its creator, creation time, quantity, quality, package and the state(s) it came from: none for a creation, one for a '
  'modification or each piece of a split, both for a combination. Untracked resources never produce a record, and a resource derived from an untracked one is untracked as well.',
  ['histories'], 'all sequences of operations on resources, tracked or not',
  'tests check isolated records',
  ['src/res_tracker.cc', 'src/res_tracker.h'],
  [('tracker', 'ResTracker::Create, Modify, Extract, Absorb, Package, Record')],
  [r'ResTracker::.*'], state=[('parent1_', 'first parent state', 'src/res_tracker.h')], observe=['Resources', 'ResCreators'])

p('C10', 'Packaging and shipping respect fill limits',
  'Packaging a resource splits it into packages within the minimum and maximum fill of the package type, carrying the package name, total quantity preserved and what does not fit a package left over; the unpackaged default never splits. Changing the package of a resource is allowed only '
  'when its quantity fits the new package type (or to unpackaged). The number of shippable packages follows the transport unit limits and strategy, invalid strategies, negative or inverted limits are refused, and names of the reserved defaults cannot be defined.',
  ['inputs', 'histories'], 'all quantities, fill limits and strategies',
  'tests use a few package types and quantities',
  ['src/package.cc', 'src/package.h', 'src/resource.h', 'src/material.cc', 'src/product.cc'],
  [('fill computation', 'Package::GetFillMass, TransportUnit::GetTransportUnitFill, MaxShippablePackages'), ('packaging', 'Resource::Package, Material/Product::PackageExtract, ChangePackage')],
  [r'Package::(Create|unpackaged|SetDistribution|Package|GetFillMass|ExceedsSplitLimits|SplitLimit|IsValidStrategy|SplitWarn|unpackaged_name|name|fill_min|fill_max|strategy)',
   r'TransportUnit::(?!MaxShip).*', r'TransportUnit::MaxShippablePackages@GetTransportUnitFill', r'(Material|Product)::(ChangePackage|PackageExtract|package_name)', r'Resource::(Package|ChangePackage|package_name)', r'%(Package|TransportUnit)::.*_name_'])

p('C11', 'Compositions are canonical, immutable and recorded once',
  'A composition is created only from valid nuclides with non-negative amounts, its mass and atom views describe the same composition whichever was given, and nothing changes it after creation. '
  'It is recorded in the output at most once, with normalised mass fractions for every nuclide. Composition arithmetic (add, subtract, normalise, threshold, compare) treats absent nuclides as zero and compares with the given tolerance.',
  ['inputs', 'histories'], 'all nuclide maps and sequences of uses of a composition',
  'tests use fixed compositions of a few nuclides',
  ['src/composition.cc', 'src/comp_math.cc', 'src/cyc_arithmetic.cc', 'src/cyc_limits.h'],
  [('creation', 'Composition::CreateFromAtom/Mass'), ('views', 'Composition::atom, mass'), ('recording', 'Composition::Record'), ('arithmetic', 'compmath')],
  [r'Composition::(Composition|CreateFromAtom|CreateFromMass|atom|mass|id|Record)', r'compmath::.*', r'CycArithmetic::.*', r'(AlmostEq|IsNegative|DoubleEq|eps|eps_rsrc)', r'%(cy_eps|cy_eps_rsrc|CY_.*|units::.*|float_ulp_eq)'],
  observe=['Compositions'])

p('C12', 'Decay is applied once per elapsed time and memoised per chain',
  'Decaying a composition by the same time along the same chain yields the same composition object, decaying by no time yields the composition itself, and successive decays accumulate exactly their total time. '
  'A material is decayed according to the decay mode of the simulation by exactly the time since its last decay, never when decay is off, and its decay clock is set to the current time whenever its composition is brought up to date or replaced.',
  ['histories', 'inputs', 'configurations'], 'all sequences of decays by any times, all decay modes, any interleaving with extraction and absorption',
  'tests decay a few compositions',
  ['src/composition.cc', 'src/material.cc', 'src/decayer.cc'],
  [('memoised chain', 'Composition::Decay, NewDecay'), ('material clock', 'Material::Decay, prev_decay_time_'), ('decay mode', 'SimInfo::decay')],
  [r'Composition::(Decay|NewDecay)', r'Material::Decay@Composition::Decay|compmath', r'Material::(ExtractComp|Absorb|Transmute)@compmath|Composition', r'Decayer::(Decayer|AddNucToList|AddNucToMaps|IsNucTracked|GetResult|Decay|BuildDecayMatrix|TrackedNuclide|n_tracked_nuclides)'])

p('C13', 'Output rows are well-formed',
  'Every row written to the output carries the simulation identity (unless injection is turned off) and exactly the named fields added to it, with their values and shapes in the order they were added, and is delivered only when explicitly recorded. '
  'A row is complete when recorded: no field is added to a row after it was recorded, and no row is created without being recorded.',
  ['programs', 'histories'], 'every place in the code base that writes output and every path through it',
  'tests read back a few tables',
  ['src/datum.cc', 'src/recorder.cc', 'all writers'], [('row building', 'Datum::AddVal, Datum::Record, Recorder::NewDatum')],
  [r'Datum::.*', r'DbInit::.*'])

p('C14', 'Recorded data reaches every backend exactly once, in order',
  'Every recorded row is delivered exactly once and in recording order to every registered backend, in batches of the configured size, the remainder on flush or close; changing the batch size loses nothing. Closing '
  'flushes and detaches every backend, each backend registered once receives data once, and rows recorded after a flush never re-deliver earlier rows.',
  ['histories', 'schedules'], 'all interleavings of recording, flushing, registering, resizing and closing',
  'tests cover one batch size and one or two backends',
  ['src/recorder.cc', 'src/recorder.h', 'src/rec_backend.h'],
  [('buffer', 'Recorder::AddDatum, NewDatum'), ('delivery', 'Recorder::NotifyBackends, Flush, Close')],
  [r'Recorder::.*', r'RecBackend::Deleter::.*', r'%kDefaultDumpCount'],
  state=[('data_', 'row buffer', 'src/recorder.h'), ('index_', 'rows used', 'src/recorder.h')])

p('C15', 'The SQLite backend stores and retrieves every value by its declared type',
  'Each delivered row is inserted once into the table of its title, created on first use with one typed column per field and recorded column types, inside a transaction that is committed only when the whole batch succeeded and is rolled back and reported otherwise. '
  'Each supported value type is written and read back by the same representation, an unsupported type or a failed database call is reported as an error, and statements are reset for reuse. Reopening an existing file keeps its tables.',
  ['inputs', 'fault_sequences', 'histories'], 'all value types, all row sequences, failure of any database call',
  'tests write a few types and never fail a database call',
  ['src/sqlite_back.cc', 'src/sqlite_db.cc', 'src/sqlite_db.h'],
  [('writer', 'SqliteBack::Notify, WriteDatum, Bind, BuildStmt, CreateTable'), ('reader', 'SqliteBack::Query, ColAsVal, GetTableInfo'), ('statement wrapper', 'SqlStatement, SqliteDb')],
  [r'SqliteBack::(Notify|SqliteBack|~SqliteBack|Flush|Name|Tables|Schema|ColumnTypes|GetTableInfo|CreateTable|BuildStmt|WriteDatum|Bind|ColAsVal|SqlType|Type|Query|db|Close)@SqliteBack::(BuildStmt|CreateTable|WriteDatum|Bind|ColAsVal|GetTableInfo|Type|SqlType)',
   r'SqlStatement::.*', r'SqliteDb::.*'])

_H5 = '@(VLWrite|VLRead|VLDataset|AppendVLKey|InsertVLVal|FillBuf|WriteToBuf|CreateTable|WriteGroup|LoadTableTypes|GetTableInfo|Flush|VLValToBuf|VLBufToVal|CreateFLStrType|ColumnTypes)'
p('C16', 'The HDF5 backend stores and retrieves every value by its declared type',
  'Every row delivered to the HDF5 backend is appended once, in order, to the table of its title, created on first use with one column per field whose recorded type, HDF5 type, offset and size follow from the value type and its declared shape. '
  'For each supported type the value is written in the representation its column declares: fixed-size values within their declared size, padded when they are shorter; variable-length values through a content hash, stored once. Reading a row back yields the value that was written, '
  'only rows meeting all conditions are returned, a missing table or a failed HDF5 call on a checked path is reported as an error, and tables of an existing file are read with the types recorded in it.',
  ['inputs', 'histories', 'configurations'], 'all value types and shapes, all row sequences, all query conditions',
  'tests write and read a few values of each type; they do not fill every shape partly, mix tables and files, or read stale memory',
  ['src/hdf5_back.cc.in', 'src/hdf5_back.h.in', 'src/hdf5_back_gen.py'],
  [('writer', 'Hdf5Back::Notify, WriteGroup, FillBuf, WriteToBuf, CreateTable'), ('reader', 'Hdf5Back::Query, GetTableInfo, LoadTableTypes'), ('variable length store', 'Hdf5Back::VLWrite, VLRead, VLDataset, AppendVLKey, InsertVLVal')],
  [r'Hdf5Back::(Notify|Hdf5Back|~Hdf5Back|Flush|Close|Name|Tables|Schema|ColumnTypes|GetTableInfo|LoadTableTypes|WriteGroup|CreateFLStrType|AppendVLKey|InsertVLVal)' + _H5,
   r'=Hdf5Back::(VLRead|VLWrite|VLValToBuf|VLBufToVal|WriteToBuf)' + _H5, r'Hdf5Back::(FillBuf|Query|VLDataset|CreateTable)#.*' + _H5])

p('C17', 'A snapshot restarts into the same simulation state',
  'What a snapshot writes is exactly what a restart reads: every next-identity counter, each living agent with its parent, prototype, entry time, lifetime and private state, each inventory with its resources and their identities, and '
  'the pending build and decommission schedule, prototypes, recipes, packages, transport units, solver settings and simulation parameters. Agents are restored parents before children, and identities allocated after a restart never collide with restored ones.',
  ['histories', 'crash_points', 'configurations'], 'all simulation states at snapshot time and all times restarted from',
  'tests restart a few mock states',
  ['src/sim_init.cc', 'src/sim_init.h', 'src/agent.cc'],
  [('writer', 'SimInit::Snapshot, SnapAgent'), ('reader', 'SimInit::InitBase and Load* functions')],
  [r'SimInit::(Init|Restart|Branch|InitBase)@SimInit::(Load|Init)', r'SimInit::(Snapshot|SnapAgent|SimInit|~SimInit)',
   r'SimInit::(LoadInfo|LoadPackages|LoadTransportUnits|LoadNextIds|LoadBuildSched|LoadDecomSched|LoadResource|LoadMaterial|LoadProduct|LoadComposition|BuildMaterial|BuildProduct|LoadInventories|LoadInitialAgents|LoadPrototypes)@SimInit::(Load|Build)',
   r'SimInit::(LoadSolverInfo)@SimInit::Load', r'SimInit::(LoadCoinSolver|LoadGreedySolver|LoadPreconditioner|context|timer|recorder)'],
  observe=['NextIds', 'AgentState*', 'Snapshots'])

p('C18', 'The exchange asks every trader and translates bids and matches exactly',
  'In every exchange each registered trader is asked once for requests and once for bids, in a deterministic order, every request and bid is indexed under its commodity and requester, and preference adjustment is offered to each requester and all its parents. The '
  'problem handed to the solver has one group per portfolio with its constraints, one node per request or bid and one arc per bid with a positive adjusted preference, with quantities and unit capacities as the traders stated, and every match of the solver becomes exactly one trade of that quantity.',
  ['inputs', 'programs'], 'all sets of portfolios, commodities, constraints, preferences and solver results',
  'tests translate small hand-made exchanges',
  ['src/resource_exchange.h', 'src/exchange_translator.h', 'src/exchange_context.h', 'src/exchange_graph.cc', 'src/exchange_graph.h', 'src/exchange_manager.h', 'src/bid_portfolio.h', 'src/request_portfolio.h', 'src/request.h', 'src/bid.h', 'src/trader_management.h', 'src/capacity_constraint.h'],
  [('collection', 'ResourceExchange'), ('indexing', 'ExchangeContext'), ('translation', 'ExchangeTranslator'), ('graph', 'ExchangeGraph'), ('driver', 'ExchangeManager::Execute')],
  [r'ResourceExchange::.*', r'ExchangeContext::.*', r'ExchangeTranslator::.*', r'(TranslateRequestPortfolio|TranslateBidPortfolio|TranslateCapacities|TranslateArc|BackTranslateMatch|AddRequest|AddBid)',
   r'ExchangeManager::.*', r'(QueryRequests|QueryBids|AdjustPrefs)', r'ExchangeGraph::.*', r'ExchangeNodeGroup::.*', r'ExchangeNode::.*', r'RequestGroup::.*', r'Arc::.*'])

p('C19', 'Trades are executed and recorded exactly as matched',
  'Every trade is handed once to its supplier and the resources of all suppliers\' responses are handed once to their requesters, grouped so that each party is called once per exchange. '
  'Each executed trade is recorded as one transaction with a fresh identity, the supplier and requester, the resource transferred, the commodity and the current time; a trade whose response carries no resource is not recorded.',
  ['inputs', 'programs'], 'all sets of trades and trader responses',
  'tests execute a few trades',
  ['src/trade_executor.h', 'src/trade.h', 'src/trader_management.h', 'src/context.h', 'src/exchange_manager.h'],
  [('grouping', 'GroupTradesBySupplier, GetTradeResponses'), ('execution', 'TradeExecutor::ExecuteTrades, SendTradeResources'), ('recording', 'TradeExecutor::RecordTrades')],
  [r'TradeExecutor::.*', r'(GroupTradesBySupplier|GetTradeResponses|SendTradeResources)', r'(PopulateTradeResponses|AcceptTrades)', r'Context::NextTransactionID'],
  observe=['Transactions'])

p('C20', 'The greedy solver never exceeds a capacity and honours exclusivity',
  'The greedy solution assigns to every arc at most the remaining quantity and capacity of both of its nodes and groups, takes an exclusive arc only whole, and updates remaining capacities by what was assigned, so no constraint is ever exceeded. '
  'It considers requests in conditioned preference order and each request\'s arcs from most to least preferred, continuing until the request is met or the arcs are exhausted, and accounts the unmet remainder in its objective.',
  ['inputs'], 'all exchange graphs, capacities, preferences and exclusivity flags',
  'tests solve a few small graphs',
  ['src/greedy_solver.cc', 'src/greedy_solver.h', 'src/greedy_preconditioner.cc', 'src/exchange_solver.cc', 'src/exchange_graph.cc'],
  [('assignment', 'GreedySolver::GreedilySatisfySet'), ('capacities', 'GreedySolver::Capacity, UpdateCapacity, GetCaps'), ('conditioning', 'GreedyPreconditioner')],
  [r'GreedySolver::(Capacity|GetCaps|UpdateCapacity|UpdateObj|Init|SolveGraph|Condition|GreedySolver|~GreedySolver)@GreedilySatisfySet', r'Capacity', r'GreedyPreconditioner::.*',
   r'(NodeWeight|GroupWeight|AvgPref|SumPref)', r'(ReqPrefComp|AvgPrefComp)', r'ExchangeSolver::.*', r'(operator==|GreedySolver::GreedilySatisfySet)'])

p('C09', 'Identities are never reused',
  'Every agent, resource object, resource state, composition, product quality, transaction and capacity constraint gets an identity that no other of its kind has had before in the simulation, including across a restart from a snapshot: '
  'each identity is drawn from a counter that only ever advances by one when an identity is taken from it, starts at its fixed first value, and is set otherwise only by a restart, to the value the snapshot recorded for that same counter.',
  ['histories', 'crash_points'], 'all sequences of object creations, transactions, snapshots and restarts',
  'tests compare a few identities; uniqueness must hold over every history of every kind of object',
  ['src/agent.cc', 'src/resource.h', 'src/resource.cc', 'src/composition.cc', 'src/product.cc', 'src/context.h', 'src/capacity_constraint.h', 'src/sim_init.cc'],
  [('draw', 'Agent::Agent, Resource::Resource, Resource::BumpStateId, Composition::Composition, Product::Create, Context::NextTransactionID, CapacityConstraint'), ('save and restore', 'SimInit::Snapshot, SimInit::LoadNextIds')],
  [r'Agent::Agent', r'Resource::(Resource|BumpStateId|state_id|obj_id)', r'Composition::(Composition|id)', r'Product::(Create|qual_id)', r'Context::(NextTransactionID|Context)', r'CapacityConstraint::(CapacityConstraint|id)',
   r'SimInit::(LoadNextIds|Snapshot)', r'%(.*::next(obj|state)?_(qual)?id_|.*::next_qualid_)'],
  rule='Closed world: every write to an identity counter anywhere in the program is an increment in the functions that draw from it or the restore of that same counter by SimInit::LoadNextIds (functions new to the tree are judged through their callers).',
  state=[('next_id_', 'next agent identity', 'src/agent.h'), ('nextstate_id_', 'next state identity', 'src/resource.h')], observe=['NextIds'])

p('C21', 'Requests, bids and portfolios say what traders asked for',
  'A request or bid carries exactly the target or offer, trader, commodity, preference and exclusivity it was made with; a portfolio holds each of its requests or bids once, all from one trader (and, for bids, one commodity), refuses any other, and reports the requested quantity of its '
  'requests or the quantity of its default constraint as mass-weighted over mutually substitutable requests. A non-positive constraint capacity or offered quantity is refused, converters measure resources by their quantity (scaled by the mutual-request coefficient), and a trader that overrides nothing requests, bids and trades nothing.',
  ['inputs', 'histories'], 'all sequences of requests, bids, constraints and mutual-request sets',
  'tests add one or two requests per portfolio',
  ['src/request.h', 'src/bid.h', 'src/request_portfolio.h', 'src/bid_portfolio.h', 'src/bid_portfolio.cc', 'src/capacity_constraint.h', 'src/trader.h', 'src/facility.h', 'src/trade.h'],
  [('requests', 'RequestPortfolio::AddRequest, AddMutualReqs, VerifyRequester_'), ('bids', 'BidPortfolio::AddBid, VerifyResponder_, VerifyCommodity_'), ('constraints', 'CapacityConstraint, converters')],
  [r'(Request|Bid|RequestPortfolio|BidPortfolio|CapacityConstraint|TrivialConverter|QtyCoeffConverter|Converter|Trade)::.*', r'SumQty', r'GetTrader(Prototype|Spec)', r'Trader::.*',
   r'(Facility|Agent)::(Adjust.*Prefs|Get.*Bids|Get.*Requests|Get.*Trades|Accept.*Trades)', r'%kDefaultPref'])

p('C29', 'Generated agent code reads, copies, saves and restores each state variable',
  'For an archetype run through cycpp, every state variable of every supported kind (numbers, booleans, strings, internal blobs, vectors, sets, lists, pairs, maps, nested containers and resource inventories), with or without default, alias, shape, '
  'unit or user-interface type, is read from the input under its declared names or set to its declared default when absent, recorded to the Info table, restored from it, copied to clones and written to snapshots under its own name; '
  'resource inventories are snapshotted without losing content and restored, with their capacities; per-variable overrides replace exactly the code they name; and the generated schema and annotations describe exactly those variables.',
  ['programs', 'inputs'], 'all archetypes whose state variables are of the supported kinds and all inputs to them; shown for two archetypes that have a variable of every kind and every annotation that changes the generated code',
  'tests compare the output of single filters for a few variables',
  ['cli/cycpp.py'],
  [('reading', 'InfileToDbFilter'), ('copying', 'CloneFilter, InitFromCopyFilter'), ('saving', 'SnapshotFilter, SnapshotInvFilter'), ('restoring', 'InitFromDbFilter, InitInvFilter'),
   ('schema', 'SchemaFilter, AnnotationsFilter')],
  [r'cycsa::(AllVars|HandVars)::(?!str$|Tick|Tock|~).*'],
  rule='The fixture archetypes sa/inst/allvars.cycpp.h are run through the cycpp.py of the tree, as the build does with every archetype; the generated functions are analysed like any other source.')

p('C36', 'JSON, XML and Python inputs describe the same simulation',
  'Converting an input between JSON and XML keeps every element: each member of an object becomes one element of its name with its members inside, repeated elements become the entries of one list and back, in order, empty and null values stay present, and '
  'text and numbers are kept as written. Malformed JSON or XML is refused with an error, and Python inputs go through the same JSON form.',
  ['inputs'], 'all input documents', 'tests convert one or two documents',
  ['src/toolkit/infile_converters.cc', 'src/pyhooks.cc', 'src/xml_file_loader.cc'],
  [('JSON to XML', 'toolkit::JsonToXml, AddJsonToXml'), ('XML to JSON', 'toolkit::XmlToJson, AddXmlToJson, JsonInsertOrAppend')],
  [r'toolkit::(AddJsonToXml|JsonInsertOrAppend|AddXmlToJson|PyToXml|XmlToPy)', r'toolkit::(JsonToXml|XmlToJson)@toolkit::Add'])

p('C37', 'Matrix arithmetic and the matrix exponential follow their definitions',
  'Matrix sums, differences, scalar and matrix products, powers and assignment are computed over all rows and columns, only for conforming shapes, leaving their arguments as they were. The matrix exponential solution uses the uniformised Taylor series with enough terms for the '
  'requested tolerance, refuses a matrix and vector of different sizes and a problem whose exponential overflows, and element access is one-based in both directions.',
  ['inputs'], 'all matrices, vectors, times and tolerances', 'tests use small fixed matrices',
  ['src/l_matrix.cc', 'src/l_matrix.h', 'src/uniform_taylor.cc', 'src/uniform_taylor.h'],
  [('matrices', 'LMatrix'), ('exponential', 'UniformTaylor::MatrixExpSolver, GetSolutionVector, MaxNumTerms')],
  [r'LMatrix::(?!Print).*', r'operator[-+*^]', r'identity', r'UniformTaylor::(?!MatrixExp).*', r'UniformTaylor::MatrixExpSolver@UniformTaylor::'])

p('C38', 'The bundled archetypes trade within their configured limits',
  'A source offers per step no more than its capacity of its commodity, of its recipe or as requested, and delivers what was traded; a sink requests its commodities up to the smaller of its capacity and the space left and stores everything it receives. The k-facility '
  'does both and scales its capacities by its growth factors once per step. Predators and prey request, hunt, starve, age, give birth and die as their parameters say. Null institutions and regions add nothing. '
  'Every declared parameter is read from the input, recorded, restored from the database, copied to clones and included in snapshots.',
  ['inputs', 'histories', 'configurations'], 'all parameter values, trades and histories of the bundled archetypes',
  'tests run a few configurations',
  ['agents/source.cc', 'agents/sink.cc', 'agents/k_facility.cc', 'agents/predator.cc', 'agents/prey.cc', 'agents/null_inst.cc', 'agents/null_region.cc'],
  [('trading', 'Source, Sink, KFacility Get*/Accept* functions'), ('population', 'Predator, Prey'), ('persistence', 'generated InitFrom, InfileToDb, Snapshot, InitInv, SnapshotInv, Clone')],
  [r'(Source|Sink|KFacility|Predator|Prey|NullInst|NullRegion)::(?!schema|annotations|str$).*', r'Construct(Source|Sink|KFacility|Predator|Prey|NullInst|NullRegion)'])

p('C40', 'Errors and warnings are reported as configured',
  'An error carries the message it was raised with. A warning is printed at most as often as its category\'s limit allows (the first beyond the limit announces suppression) and becomes an error when warnings are to be treated as errors; a log level name maps to its level and back, and '
  'unknown levels are refused or reported as bad.',
  ['histories', 'configurations'], 'all sequences of warnings, limits and levels', 'tests issue a few warnings',
  ['src/error.cc', 'src/error.h', 'src/logger.cc', 'src/logger.h'],
  [('warnings', 'Warn'), ('errors', 'Error::what, Error::msg'), ('levels', 'Logger::ToLogLevel, ToString')],
  [r'=Warn', r'Error::.*', r'(Cast|IO|Key|State|Validation|Value|Deprication)Error::.*', r'Logger::(AddLevel|Initialize|ToLogLevel|ToString|ReportLevel|SetReportLevel|NoAgent|NoMem|SetNoAgent|SetNoMem)', r'warn_prefixes', r'%warn_.*', r'%Logger::(report_level|no_agent|no_mem)'])

p('C22', 'The program solver sees the same exchange as a linear program and maps it back',
  'The mathematical program has one variable per arc plus one shortfall variable per request group that needs it, constraint rows for each capacity of each group with the arcs\' unit capacities, one-at-most rows for exclusive groups, binary variables for exclusive arcs, and costs from preferences with shortfall always the worst. '
  'Each positive solution value becomes one match on its arc of that quantity (whole quantity for exclusive arcs), and non-positive preferences are refused.',
  ['inputs', 'configurations'], 'all exchange graphs and solver settings', 'tests translate two hand-made graphs',
  ['src/prog_translator.cc', 'src/prog_solver.cc', 'src/solver_factory.cc', 'src/coin_helpers.cc'],
  [('translation', 'ProgTranslator::ToProg, XlateGrp_, Translate, Populate'), ('back translation', 'ProgTranslator::FromProg'), ('solver selection', 'SolverFactory')],
  [r'ProgTranslator::.*', r'ProgSolver::.*', r'SolverFactory::.*', r'SolveProg', r'HasInt', r'ReportProg', r'ObjValueHandler::.*', r'%kModifierLimit'])

p('C23', 'Resource buffers account for exactly what they hold',
  'The quantity of a buffer always equals what it holds: every push adds and every pop removes exactly one resource and its quantity, in first-in first-out order (last-in for pop-back), splitting the last resource when an amount is asked for. A push that exceeds the '
  'capacity, pushes a resource twice, or is null, and a pop of more than is held, is refused and leaves the buffer unchanged; bulk buffers merge what is pushed into one resource, and packaging is stripped unless the buffer keeps it.',
  ['histories', 'inputs'], 'all sequences of buffer operations and quantities', 'tests run short fixed sequences',
  ['src/toolkit/res_buf.h', 'src/toolkit/res_manip.h', 'src/toolkit/res_manip.cc'],
  [('buffer', 'ResBuf::Push, Pop, PopN, PopBack, capacity'), ('squash', 'Squash')],
  [r'toolkit::ResBuf::(ResBuf|Push|Pop|PopN|PopNRes|PopVector|PopBack|Peek|Decay|capacity|keep_packaging|count|quantity|space|empty|UpdateQty)', r'toolkit::(Squash|ResCast)'],
  state=[('qty_', 'quantity held', 'src/toolkit/res_buf.h'), ('rs_present_', 'resources held', 'src/toolkit/res_buf.h')])

p('C24', 'Resource maps track their contents and quantity',
  'The total quantity reported by a resource map always reflects the resources in it, recomputed after any change that can alter it and only then. Insertion, replacement, erasure and pop by key affect exactly the addressed resources; a pop returns what was stored, in key order for all, '
  'and asking for a missing key is refused where it must exist.',
  ['histories'], 'all sequences of map operations', 'tests run short fixed sequences',
  ['src/toolkit/res_map.h'], [('map', 'ResMap')], [r'toolkit::ResMap::.*'])

p('C25', 'Buy and sell policies request and deliver within their limits',
  'A buy policy requests no more than its buffer\'s free space, throughput, tracker space and cumulative allowance, only while active and only when its inventory policy triggers, splitting by its quantisation, one mutual request per commodity; every accepted material is pushed into the buffer, counted, and recorded state (dormancy, cumulative totals) follows. '
  'A sell policy bids only what its buffer holds within throughput and package/transport limits, one bid per request, and delivers exactly the traded amounts from its buffer.',
  ['histories', 'inputs', 'configurations'], 'all policy settings, buffer states and trade results', 'tests use a few settings',
  ['src/toolkit/matl_buy_policy.cc', 'src/toolkit/matl_buy_policy.h', 'src/toolkit/matl_sell_policy.cc', 'src/toolkit/matl_sell_policy.h'],
  [('buy', 'MatlBuyPolicy::GetMatlRequests, AcceptMatlTrades'), ('sell', 'MatlSellPolicy::GetMatlBids, GetMatlTrades')],
  [r'toolkit::MatlBuyPolicy::(?!Start|Stop|~|Init$|GetMatlRequests).*', r'toolkit::MatlBuyPolicy::(Init|GetMatlRequests)@MatlBuyPolicy::(set_|init_active|Set|Check|Sample|Reset|Record|TotalAvail|ReqQty|NReq|MakeReq)',
   r'toolkit::MatlSellPolicy::(?!Start|Stop|~).*'])

p('C26', 'Inventory trackers bound the combined inventory of their buffers',
  'The quantity, capacity and free space reported by an inventory tracker are those of all of its buffers together, bounded by the tracker\'s own limit, and the space of one buffer under the tracker is the smaller of its own and the tracker\'s. '
  'An uninitialised tracker or a limit below the current content is refused.',
  ['histories'], 'all buffer sets and contents', 'tests use two buffers', ['src/toolkit/total_inv_tracker.h'], [('tracker', 'TotalInvTracker')], [r'toolkit::TotalInvTracker::.*'])

p('C27', 'Input files are loaded completely and validated first',
  'An input is validated against the schema before anything is built from it, and every declared archetype, recipe, package, transport unit, solver setting, commodity priority, control parameter and initial agent reaches the simulation database with the value written in the input, defaults applying exactly where an optional entry is absent. '
  'Duplicate or unknown names, empty or unreadable files and invalid values stop the load with an error.',
  ['inputs'], 'all input files', 'tests load a few inputs',
  ['src/xml_file_loader.cc', 'src/xml_flat_loader.cc', 'src/xml_parser.cc', 'src/relax_ng_validator.cc', 'src/infile_tree.cc', 'src/infile_tree.h'],
  [('loader', 'XMLFileLoader::LoadSim and Load*'), ('query', 'InfileTree, OptionalQuery'), ('validation', 'XMLParser, RelaxNGValidator')],
  [r'XMLFileLoader::(LoadSim)@XMLFileLoader::(Load|Build|Process|master)', r'XMLFileLoader::(LoadControlParams|LoadSolver|ProcessCommodities|LoadRecipes|LoadPackages|LoadTransportUnits|LoadSpecs|LoadInitialAgents|BuildAgent|XMLFileLoader|~XMLFileLoader)',
   r'XMLFlatLoader::(LoadInitialAgents|XMLFlatLoader)', r'XML(File|Flat)Loader::master_schema@MasterSchema', r'Build(Flat)?MasterSchema', r'(ReadRecipe|ParseSpecs|LoadStringFromFile|LoadStringstreamFromFile|LoadRawStringstreamFromFile)',
   r'InfileTree::[^~].*', r'(Query|OptionalQuery)', r'XMLParser::.*', r'RelaxNGValidator::.*'])

p('C28', 'Random draws come from the one seeded generator and its declared distribution',
  'All random numbers come from the simulation\'s generator, which is (re)initialised exactly from the configured seed (and stride for its offset), so runs are reproducible. Each distribution uses the parameters it was constructed with and '
  'reports, bounds its draws to its declared range, and refuses invalid parameters.',
  ['histories', 'configurations', 'inputs'], 'all seeds, strides, parameters and draw sequences', 'tests fix one seed',
  ['src/random_number_generator.cc', 'src/random_number_generator.h', 'src/context.cc'],
  [('generator', 'RandomNumberGenerator::Initialize'), ('distributions', '*Dist::sample')],
  [r'RandomNumberGenerator::.*', r'.*(Int|Double)Dist::.*', r'Context::random.*', r'%kDefault(Seed|Stride|TimeStepDur)'])

p('C32', 'Query conditions select exactly the matching rows',
  'A query with conditions returns exactly the rows for which every condition holds, each operator meaning the same comparison in every backend and for every value type, and an unknown operator or field is refused. Injected conditions and prefixes apply to every query made through the wrapper, '
  'and a result field is found by its name and converted to its stored type only.',
  ['inputs'], 'all tables, fields, operators, values', 'tests use equality on a few fields',
  ['src/query_backend.h', 'src/sqlite_back.cc', 'src/hdf5_back.cc.in', 'cyclus/memback.pyx'],
  [('conditions', 'Cond, CmpCond, CmpConds'), ('wrappers', 'CondInjector, PrefixInjector'), ('results', 'QueryResult::GetVal')],
  [r'Cond::Cond', r'=CmpCond', r'CondInjector::.*', r'PrefixInjector::.*', r'QueryResult::.*', r'Blob::.*', r'ColumnInfo::.*', r'Sha1::(Clear|Sha1|digest)', r'=Sha1::Update', r'=CmpConds@CmpCond'])

p('C33', 'Archetypes and files are found, loaded and released deterministically',
  'An archetype specification names exactly one path, library and agent (defaults filled in when parts are omitted, malformed ones refused), its library is opened once and shared, the constructor called is the one named, failures to find or open are errors, and everything opened is closed once at the end. '
  'Search paths are consulted in the documented order and environment settings override built-in locations.',
  ['inputs', 'configurations'], 'all specifications, search paths and environments', 'tests load the bundled archetypes',
  ['src/dynamic_module.cc', 'src/dynamic_module.h', 'src/env.cc.in', 'src/discovery.cc', 'src/unix_helper_functions.h'],
  [('spec parsing', 'AgentSpec'), ('loading', 'DynamicModule'), ('search', 'Env')],
  [r'AgentSpec::.*', r'DynamicModule::.*', r'Env::(PathDelimiter|EnvDelimiter|GetEnv|SplitPath|PathBase|SetNucDataPath|cyclus_path|allow_milps)@Env::(Get.*Path|nuc_data)', r'DiscoverArchetypes@Discover', r'DiscoverSpecs(InDir|InCyclusPath)?@DiscoverSpecs|DiscoverArchetypes|Env::', r'Env::(FindModule|GetBuildPath|GetInstallPath|nuc_data|rng_schema)@Env::'])

p('C34', 'Toolkit build and market helpers compute what they advertise',
  'Producer managers report as supply the summed capacity of the registered producers of a commodity, demand follows the registered demand function, build decisions cover exactly the unmet demand at least cost among registered producers, and each registered object counts once. Piecewise and other demand functions evaluate to their definition on every '
  'interval, and commodity/recipe bookkeeping returns for each commodity exactly what was registered, unknown ones being refused.',
  ['inputs', 'histories'], 'all registrations and demand functions', 'tests use a few fixed functions and producers',
  ['src/toolkit/building_manager.cc', 'src/toolkit/commodity_producer.cc', 'src/toolkit/commodity_producer_manager.cc', 'src/toolkit/supply_demand_manager.cc', 'src/toolkit/symbolic_functions.cc', 'src/toolkit/symbolic_function_factories.cc', 'src/toolkit/commodity_recipe_context.cc'],
  [('managers', 'SupplyDemandManager, CommodityProducerManager, BuildingManager'), ('functions', 'SymFunction classes and factories')],
  [r'toolkit::(BuildingManager|BuildOrder|Builder|CommodityProducer|CommodInfo|CommodityProducerManager|SupplyDemandManager|Commodity|CommodityCompare|AgentManaged)::.*', r'toolkit::.*FunctionFactory::.*', r'toolkit::(Exponential|Linear|Piecewise)Function::.*',
   r'toolkit::PiecewiseFunction::PiecewiseFunctionInfo::.*', r'toolkit::CommodityRecipeContext::(?!schema).*', r'toolkit::FacilityCost::.*'])

p('C35', 'Derived physical quantities follow their definitions',
  'Enrichment quantities (assays, feed, tails, separative work), material queries (mass, moles, fractions, comparable amounts) and geographic positions follow their definitions for every input: fractions relate to the total present, absent nuclides count as zero, '
  'coordinates outside the valid ranges are refused, and a query never changes the material it inspects. Time series and inventories are recorded with the reporting agent, the current time, and the given value.',
  ['inputs'], 'all materials, assays and positions', 'tests check a few numbers',
  ['src/toolkit/enrichment.cc', 'src/toolkit/mat_query.cc', 'src/toolkit/position.cc', 'src/toolkit/timeseries.cc', 'src/timer.cc'],
  [('enrichment', 'toolkit::SwuRequired, FeedQty, TailsQty'), ('queries', 'MatQuery'), ('positions', 'Position'), ('time series', 'RecordTimeSeries')],
  [r'toolkit::(Assays::.*|FeedQty|SwuRequired|TailsQty|UraniumAssay.*|UraniumQty|ValueFunc)', r'toolkit::MatQuery::.*', r'toolkit::Position::(?!ToString).*', r'toolkit::Position::ToString', r'toolkit::Position::ToStringHelper.*', r'=toolkit::RecordTimeSeries', r'Timer::(RecordInventor.*)'],
  observe=['TimeSeries*', 'ExplicitInventory'])


NA = []


def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=[], observe=[], reason=reason))


na('C30', 'Decayed compositions are numerically accurate',
   'Decaying a composition yields nuclide amounts within a small relative error of the exact solution of the decay equations, and the total number of atoms is preserved to that error, for every nuclide and time.',
   ['inputs'], 'all compositions, all nuclides of the library and all decay times',
   'tests compare a few nuclides at a few times, and the size of the error depends on the numbers themselves',
   ['src/cram.hpp', 'src/composition.cc'], [('solver', 'pyne_cram_expm_multiply14, Composition::NewDecay')],
   'The statement bounds the rounding and approximation error of a rational approximation (generated arithmetic over thousands of nuclides); no syntactic or dataflow argument bounds it. '
   'What is decided statically is that the right inputs reach the solver, and its result the composition (C12), and the matrix solver\'s recurrence (C37).')
na('C31', 'Equal inputs give equal outputs on every run',
   'Running the same input with the same seed produces the same rows in the same order, on every run and machine.',
   ['schedules', 'configurations'], 'all inputs, runs, address space layouts and standard libraries',
   'tests compare two runs in one environment at most',
   ['src/context.cc', 'src/resource_exchange.h', 'src/trade_executor.h'], [('pointer-ordered sets', 'Context::traders_, TradeExecutionContext::suppliers, requesters, BidPortfolio::bids')],
   'Traders, suppliers, requesters and bids are kept in sets ordered by address, so the order of offers among equals follows the allocator: whether two runs agree is decided by run-time addresses, which no static argument in reach bounds. '
   'That every random draw comes from the one seeded generator is decided by C28.')
na('C39', 'Recorded output survives a crash of the process or machine',
   'After a crash at any point, every row of a flushed batch can be read from the output file, and the file opens without repair.',
   ['crash_points'], 'a crash at any instruction or write of the run, with any ordering of writes by the operating system',
   'no test crashes the process while writing',
   ['src/sqlite_back.cc', 'src/hdf5_back.cc', 'src/recorder.cc'], [('transactions', 'SqliteBack::Flush'), ('HDF5 writes', 'Hdf5Back::Notify, Flush')],
   'Durability is provided, or not, by SQLite (opened with PRAGMA synchronous=OFF), the HDF5 library and the operating system, whose code is not part of the tree. '
   'That each batch is written in one transaction, rolled back when a row fails, is decided by C14 and C15.')
