"""What each property depends on: units, functions under contract, and what is left to bounded stand-ins."""

COMMON_ASSUMPTIONS = [
    'async executor and channel semantics: async_std channels and I/O behave as the contracts in contracts/prelude.rs say (FIFO, no loss, recv reports the end only once drained)',
    'an `.await` is a plain call: other tasks act only through channels, never on the state a task owns',
    'a task handles fewer than 2^62 messages (axiom tick)',
]
EXTRACTION_DROPS = ('attributes, comments, derives (Clone/PartialEq of the listed types are assumed structural), `dyn AsyncRead` becomes the byte source type; '
                    'assert! becomes an obligation; `for x in &mut OPTION` becomes `if let`; `.iter().enumerate()` loops become index loops; `|(a, b)|` closure patterns become one variable; `.iter().copied().collect()` becomes `.to_vec()`; `a.join(b).await` becomes `a.await; b.await`; '
                    '`format!` becomes a text builder (crate::fmt), `std::process` and friends a shim with assumed contracts (crate::std_shim); types declared inside a function are moved in front of it; functions declared inside a function are verified on their own; an `async fn` without `.await` becomes a plain function and `block_on(f(..))` of it a call; iterator chains (`fold`, `map`, `filter_map`, `entry().or_insert`, ...) become loops or calls with the same meaning (vf/chains.py lists each); `v[a..b]` a call; the receiver of a `for` may be named first; `match` on string literals becomes if/else; `v.into_iter().map(f).collect()` becomes `v.map_collect(f)`; `for x in v` over `&mut Vec` gets `.iter_mut()`; `if c { continue; } rest` in a `for` becomes if/else; panic!/println! become calls that must be unreachable; the functions peg::parser! generates are taken from the compiler\'s own expansion of the library (`-Zunpretty=expanded`) with paths into peg, std and alloc shortened, vec! and panic! put back, `(|| { E })()` as `{ E }` and `for mut x` as `for x { let mut x = x; .. }`')

M = 'src/motion.rs :: '


def m(*names):
    return [('rt', M + n) for n in names]


LINK = m('fn motion_write', 'fn motion_close', 'fn motion_worker', 'fn motion', 'impl Push > fn journey', 'impl Pull > fn journey')
JUNCTION = [('rt', x) for x in (
    'src/junction.rs :: fn junction_motion_worker', 'src/junction.rs :: impl Junction > fn iteration', 'src/junction.rs :: impl Junction > fn initialize_stdin',
    'src/junction.rs :: impl StartableControl for Junction > fn start', 'src/junction.rs :: impl Connectable for Junction > fn add_output',
    'src/junction.rs :: impl Connectable for Junction > fn add_input', 'src/junction.rs :: impl Junction > fn new',
    'src/utils.rs :: fn remove_vec_vec', 'src/utils.rs :: fn remove_vec_vec_index')]


def component(name, impls, connects, start='StartableControl'):
    """the keys of one component's functions"""
    f, t = 'src/%s.rs' % name.lower(), name
    return ([('rt', '%s :: impl %s > fn %s' % (f, t, i)) for i in impls]
            + [('rt', '%s :: impl Connectable for %s > fn %s' % (f, t, i)) for i in connects]
            + ([('rt', '%s :: impl %s for %s > fn start' % (f, start, t))] if start else []))


CONN = ['add_output', 'add_input']
REGULATOR = component('Regulator', ['new', 'get_control', 'start_secret'], CONN) + [('rt', 'src/regulator.rs :: impl RegulatorControl > fn ' + n) for n in ('pause', 'resume')]
FAUCET = component('Faucet', ['new', 'get_control', 'start_secret'], CONN) + [('rt', 'src/faucet.rs :: impl FaucetControl > fn ' + n) for n in ('pause', 'resume')]
BUFFER = component('Buffer', ['new', 'add_buffer_size_monitor'], CONN)
DRAIN = component('Drain', ['new'], CONN)
LAUNCH = component('Launch', ['new', 'environment_configure', 'start'], CONN, start=None)
COLLECTIONS = ['std collections (HashMap, BTreeMap, HashSet) and iterator adaptors behave as contracts/coll.rs says: a map is a finite function from key texts, iteration visits each entry once in some order']
PROPS = {
    'C01': dict(level='proof', units=['rt'], modules=['motion'],
                functions=m('fn is_split', 'fn motion_read_buffer', 'fn motion_read', 'fn motion_worker', 'fn motion'),
                bounded_for='real pipes and files (the OS side of the assumed read contract); ReadSplitControl::new'),
    'C02': dict(level='proof', units=['rt'], modules=['motion'], functions=m('fn motion_read') + LINK,
                bounded_for='real pipes, files and channels (the assumed contracts)'),
    'C03': dict(level='proof', units=['rt'], modules=['motion'], functions=LINK,
                bounded_for='real pipes and channels (the assumed contracts)'),
    'C04': dict(level='proof', units=['rt'], modules=['junction', 'utils', 'motion', 'back_off'],
                functions=JUNCTION + m('fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real channels and executors (the assumed contracts); that every input is eventually polled to its end (termination of the loop)'),
    'C05': dict(level='proof', units=['rt'], modules=['junction', 'utils', 'motion', 'back_off'],
                functions=JUNCTION + m('fn motion_worker', 'fn motion_read'),
                bounded_for='real channels (the assumed contract of try_recv)'),
    'C06': dict(level='proof', units=['rt'], modules=['regulator', 'faucet', 'pump', 'motion'],
                functions=REGULATOR + FAUCET + m('fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real channels and executors (the assumed contracts); real sources of a faucet; that a handshake in progress ends (progress of the other task)',
                assumptions=['the two ends of a control are used by one task each; what the other task does between two steps is unconstrained']),
    'C07': dict(level='proof', units=['rt'], modules=['buffer', 'motion', 'back_off'],
                functions=BUFFER + m('fn motion', 'fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real channels and executors; that the producer never waits (its queue is unbounded; no progress reasoning); the interleaving of the three joined futures',
                assumptions=['axiom_fifo: the queue between the two links has one sender and one receiver; what is received is a prefix of what was sent',
                             'axiom_in_before_out: the size reporter polls the arrival notifications before the departure notifications, both channels hold 8, so a departure is never seen before its arrival',
                             'axiom_over: a notification channel seen closed was drained',
                             'a.join(b).join(c).await is verified as the three futures one after the other: they share no endpoint but the channels between them']),
    'C08': dict(level='proof', units=['rt'], modules=['waiter', 'waiter::net', 'waiter::net::run', 'regulator', 'back_off'],
                functions=[('rt', 'src/waiter.rs :: fn manage_regulator_from_buffers'), ('rt', 'src/buffer.rs :: impl Buffer > fn add_buffer_size_monitor')]
                + [('rt', 'src/regulator.rs :: impl RegulatorControl > fn ' + n) for n in ('pause', 'resume')]
                + [('rt', 'src/waiter.rs :: impl Waiter > fn ' + n) for n in ('regulator_settings', 'configure_regulator', 'start')],
                bounded_for='real channels and executors',
                assumptions=['axiom_sizes: the last reported sizes of the monitored buffers add up to less than 2^64',
                             'Vec::into_iter().map(f).collect() applies f to each element in order; into_iter().rev() reverses']),
    'C09': dict(level='proof', units=['rt'], modules=['regulator', 'faucet', 'buffer', 'drain', 'launch', 'junction'],
                functions=[x for c in ('Faucet', 'Drain', 'Buffer', 'Regulator', 'Junction', 'Launch') for x in component(c, ['new'], CONN, start=None)],
                bounded_for='that what was accepted then carries data in the running component'),
    'C10': dict(level='proof', units=['rt'], modules=['waiter::net', 'waiter::net::run'],
                functions=[('rt', 'src/waiter.rs :: ' + n) for n in ('fn get_waiter', 'fn get_create_spec', 'fn get_waiter > fn constructor', 'fn get_waiter > fn string_hack')]
                + [('rt', 'src/waiter.rs :: impl Waiter > fn ' + n) for n in ('new', 'incr_id', 'get_id', 'get_src_pull', 'join', 'add_launch', 'add_faucet', 'add_junction', 'add_buffer', 'add_drain', 'add_regulator', 'id_to_component_type_name', 'configure_regulator', 'regulator_settings', 'start')]
                + [x for c in ('Faucet', 'Drain', 'Buffer', 'Regulator', 'Junction', 'Launch') for x in component(c, ['new'], CONN, start=None)],
                bounded_for='which lists reach get_waiter (C11, C12 and src/bin/pa2.rs)',
                assumptions=COLLECTIONS + ['the configuration is proper: its connections are lists (not join strings), and behind an element with an output, in every order of the lists, comes one with an input (otherwise get_waiter panics)',
                                           'constructor is async but never waits: it is verified as a plain function, block_on(constructor(..)) as a call',
                                           'a String denotes one operating system string and one path']),
    'C16': dict(level='proof', units=['rt'], modules=['waiter::net::run', 'waiter::net', 'bin_support', 'waiter', 'motion'],
                functions=[('rt', 'src/waiter.rs :: impl Waiter > fn ' + n) for n in ('start', 'start > fn folder', 'start > fn err_as_vec_err', 'regulator_settings', 'get_id_to_component_type_name')]
                + [('rt', 'src/waiter.rs :: impl WaiterError > fn ' + n) for n in ('description', 'instant', 'caused_by_error_name', 'caused_by_error_source', 'caused_by_error')]
                + [('rt', 'src/motion.rs :: impl MotionError > fn ' + n) for n in ('instant', 'journey', 'pull_journey', 'journey_source')]
                + [('rt', 'src/bin_support.rs :: fn waiter_error_to_string'), ('rt', 'src/bin_support.rs :: fn waiter_error_to_string > fn component_type_name_to_string'), ('rt', 'src/waiter.rs :: fn manage_regulator_from_buffers')]
                + [('rt', 'src/' + f + '.rs :: ' + p + ' > fn start') for f, p in (('faucet', 'impl StartableControl for Faucet'), ('launch', 'impl Launch'), ('junction', 'impl StartableControl for Junction'), ('regulator', 'impl StartableControl for Regulator'), ('buffer', 'impl StartableControl for Buffer'), ('drain', 'impl StartableControl for Drain'))],
                bounded_for='real executors (join_all); the clock; what src/bin/pa2.rs does with the errors',
                assumptions=COLLECTIONS + ['fork: every component runs as a task of its own; its contract speaks of the world as that task sees it, which starts as it is when the run starts (join and join_all are verified as one after the other, each in a world of its own)',
                             'axiom_total: the counts of a run add up to less than 2^64',
                             'sort_by_key is a stable sort; None sorts before Some; Instant::duration_since',
                             'the nested functions start and start_launch are written out where they are called (static instead of dynamic dispatch)',
                             'no buffer is named twice by watermarks (get_control and add_buffer_size_monitor would panic)']),
    'C17': dict(level='proof', units=['rt'], modules=['launch', 'motion'],
                functions=LAUNCH + m('fn motion', 'fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real processes and how they end (the assumed contracts of Command, Child and ExitStatus); that dropping the senders of a launch that failed closes its connections',
                assumptions=['Child::status reports how the program ended, after it has ended; a status it cannot report is asked for again',
                             'format!("{:?}") of an i32 is its decimal notation',
                             'the three joined links are verified as one after the other: they share no endpoint']),
    'C21': dict(level='proof', units=['rt'], modules=['drain', 'faucet', 'pump', 'motion'],
                functions=DRAIN + component('Faucet', ['new', 'start_secret'], ['add_output']) + m('fn motion', 'fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real files, standard input, output and error (the assumed contracts of File::open, File::create, stdin, stdout, stderr)',
                assumptions=['File::create truncates, File::open reads from the beginning; stdout() and stderr() are the process\'s own']),
    'C22': dict(level='proof', units=['rt'], modules=['launch', 'motion'],
                functions=LAUNCH + m('fn motion', 'fn motion_worker', 'fn motion_close', 'fn motion_write', 'fn motion_read'),
                bounded_for='real processes: that Command passes on what it is given (its assumed contract)',
                assumptions=['a Command starts with no arguments, pipeawesome2\'s own directory, environment and streams; a variable set later replaces one set earlier',
                             'std::env::vars_os lists pipeawesome2\'s own environment',
                             'the three joined links are verified as one after the other: they share no endpoint']),
    'C18': dict(level='proof', units=['rt'], modules=['back_off', 'junction', 'buffer', 'waiter'],
                functions=[('rt', 'src/back_off.rs :: impl BackOff > fn ' + n) for n in ('new', 'reset', 'wait')] + [('rt', 'src/junction.rs :: impl Junction > fn iteration'), ('rt', 'src/buffer.rs :: impl StartableControl for Buffer > fn start'), ('rt', 'src/waiter.rs :: fn manage_regulator_from_buffers')],
                bounded_for='the clock (async_std::task::sleep is assumed to sleep as long as asked)'),
}

CF = 'src/config.rs :: '
EDITS = ['new', 'regulator_set_watermark', 'faucet_set_source', 'drain_set_destination', 'connection_join', 'launch_set_command', 'launch_set_path', 'launch_set_args', 'launch_set_env']
MF = 'src/config_manip.rs :: '
PAIRS = [('cfg', MF + n) for n in ('fn break_apart_chunker', 'fn break_apart_mapper', 'fn apart_iterator_to_double_connection', 'fn break_apart', 'fn rebuild_pair_up_connections_folder', 'fn generate_new_key')]
JUNCTIONS = [('cfg', MF + n) for n in ('fn count_start_ends', 'fn extract_junction_names', 'fn get_multis', 'fn get_multi_starts', 'fn add_junctions', 'fn add_junctions > fn add_start_junctions_for', 'fn add_junctions > fn add_end_junctions_for')]
PREPARE = [('cfg', MF + n) for n in ('fn connection_manipulation', 'fn connection_manipulation_light')] + [('cfg', CF + 'impl Config > fn convert_connections'), ('cfg', CF + 'impl Config > fn quick_deserialized_connection_to_connection')]
RULES = ('component_name port_preference in_port component_type identifier component_type_name_seperator out_port pipe_type_code pipe_type pipe_plain pipe component_middle_full component_middle_default_output component_middle_default_input component_middle_quick component_middle component_start_full component_start_quick component_start component_end_full component_end_quick component_end line_middle connection_set_has connection_set_none connection_set').split()

PA2 = 'src/bin/pa2.rs :: fn '
READ = [('pa2u', 'src/config_io.rs :: fn ' + n) for n in ('read_config_as_str', 'parse_config_str', 'result_flatten', 'read_config')]
COMMANDS = [('pa2u', PA2 + n) for n in ('process_user_config_action', 'main')] + READ
STRINGS = [('pa2u', PA2 + n) for n in ('convert_to_deserialized_connection', 'read_config_with_connections')]
OUTSIDE = ['serde_json and serde_yaml: a text is read as at most one value, writing a configuration as JSON gives one line; files and standard input are read completely (contracts/pa2.rs)',
           'what the command line asks for is whatever get_user_config_action makes of it (clap)']
PROPS.update({
    'C11': dict(level='proof', bin=True, units=['cfg', 'pa2u'], modules=['config_manip', 'pa2', 'config_io'],
                functions=PAIRS + JUNCTIONS + PREPARE + STRINGS + COMMANDS,
                bounded_for='serde, clap and files (their assumed contracts)',
                assumptions=COLLECTIONS + OUTSIDE + ['every list of the configuration, its join strings read, begins with a start, ends with an end and has middles in between (the command refuses nothing else, it panics)', 'a key number does not overflow i32 (fewer than 2^31 connections)']),
    'C12': dict(level='proof', units=['cfg', 'pa2u'], modules=['config_manip', 'pa2', 'config_io'],
                functions=[('cfg', MF + n) for n in ('fn identify_required_spies_for_launch_exits', 'fn add_launch_exit_spies', 'fn generate_new_key')] + PREPARE + STRINGS + COMMANDS,
                bounded_for='nothing of the added connections; what they do when run is C02, C17 and C21',
                assumptions=COLLECTIONS + OUTSIDE + ['every list of the configuration, its join strings read, begins with a start, ends with an end and has middles in between (the command refuses nothing else, it panics)', 'a key number does not overflow i32 (fewer than 2^31 connections)']),
    'C13': dict(level='proof', bin=True, units=['cfg', 'pa2u'], modules=['config', 'pa2', 'config_io'],
                functions=[('cfg', CF + 'impl Config > fn ' + n) for n in ('connections_mapper', 'convert_connections', 'quick_deserialized_connection_to_connection', 'lint', 'lint > fn string_to_component_type', 'lint > fn exists_with_flow_config')] + [('cfg', CF + 'impl FromStr for ComponentType > fn from_str')] + COMMANDS,
                bounded_for='how warnings are worded; serde, clap and files (their assumed contracts); what a join string is (C15)',
                assumptions=COLLECTIONS + OUTSIDE + ['load_connection_from_string is a function of its argument']),
    'C15': dict(level='proof', units=['joins'], modules=['joins', 'joins::connection_parser', 'peg', 'peg::error'],
                functions=[('joins', CF + 'peg connection_parser > fn ' + n) for n in ['__parse_' + r for r in RULES] + ['connection_set_has', 'connection_set_none', 'connection_set']]
                + [('joins', CF + 'fn load_connection_from_string'), ('joins', CF + 'impl Connection > fn convert_to_input_breakable')],
                bounded_for='the run-time side of the peg crate and str::parse (assumed by the proof, executed by the bounded groups); that reading always ends',
                assumptions=['the run-time functions of the peg crate as contracts/peg.rs has them: positions are character boundaries, a literal or a character matches at a position exactly if the text from there begins with it, a slice is the text between two positions',
                             'str::parse::<isize> reads an optional sign and decimal digits and fails on anything else and on overflow',
                             'to_string copies a text; == on texts compares the characters']),
    'C19': dict(level='proof', bin=True, units=['graph', 'pa2u'], modules=['graph', 'config', 'dot', 'pa2', 'config_io'],
                functions=[('graph', 'src/graph.rs :: fn ' + n) for n in ('convert_connection_to_graph_connection', 'convert_connection_components_fold', 'get_diagram', 'get_diagram > fn component_type_to_letter', 'get_diagram > fn get_node_shape', 'get_diagram > fn get_node_color', 'get_diagram > fn node_id', 'get_diagram > fn get_connection_set_name', 'get_diagram > fn get_connection_set_name > fn taker', 'get_graph')]
                + [('graph', CF + n) for n in ('fn quick_add_connection_set', 'fn quick_add_connection_set > fn set_connection_set', 'impl Connection > fn component_type', 'impl Config > fn quick_deserialized_connection_to_connection')] + COMMANDS,
                bounded_for='how graphviz_rust writes statements as text; the legend',
                assumptions=COLLECTIONS + OUTSIDE + ['the data structures and macros (id!, attr!) of graphviz_rust as contracts/dot.rs has them; its printer writes every statement, in order',
                             'the order of the entries of a map is any order']),
    'C14': dict(level='proof', bin=True, units=['cfg', 'pa2u'], modules=['config', 'pa2', 'config_io'],
                functions=[('cfg', CF + 'impl Config > fn ' + n) for n in EDITS] + STRINGS[:1] + COMMANDS,
                bounded_for='from the command line to the edit asked for (get_user_config_action, clap); reading and writing configurations (serde)',
                assumptions=COLLECTIONS + OUTSIDE),
})

# nothing else of the program prints: of everything under contract elsewhere, only the obligations about printing count for C20
_full = COMMANDS + STRINGS + DRAIN + LAUNCH + [('rt', 'src/faucet.rs :: impl StartableControl for Faucet > fn start')]
_rest = sorted({f for d in PROPS.values() for f in d['functions'] if f[0] in ('rt', 'cfg', 'graph')} - set(_full))
PROPS['C20'] = dict(level='proof', bin=True, units=['pa2u', 'rt', 'cfg', 'graph'], modules=[], functions=_full + _rest,
                    about={k: r'vprintln' for _, k in _rest},
                    bounded_for='real standard output and error, real programs (their assumed contracts); the functions of the command line (get_user_config_action, clap); that libraries print nothing',
                    assumptions=COLLECTIONS + OUTSIDE + ['println!, print! and the drains with destination "-" are the only ways anything of this program gets to standard output; what a library prints is not seen',
                                 'a run prints nothing of its own: proved of each function under contract (units rt, cfg, graph), taken over by main',
                                 'every list of the configuration, its join strings read, begins with a start, ends with an end and has middles in between (else the command panics)'])
# a unit that takes over others' contracts (proved in units of their own) and verifies these modules, woven from these files
UNIT_MODULES = {'pa2u': ['config_io', 'pa2']}
UNIT_FILES = {'pa2u': ['src/bin/pa2.rs', 'src/config_io.rs']}
HOOK_COMMITS = ['027427ea5189ae5988ff582b491cf98d707a6704']
TODO = 'not claimed yet: its functions are not under contract so far'
NOT_APPLICABLE = {'C%02d' % i: TODO for i in range(1, 23)}
NOT_APPLICABLE['C23'] = ('liveness of the whole running system (termination and absence of deadlock under every scheduler): contracts with partial correctness over single tasks cannot express it, '
                         'Verus has no fairness or progress reasoning for async tasks')
