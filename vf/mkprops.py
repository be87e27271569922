"""Writes /verif/properties.jsonl (the property list lives here so that it can be edited and diffed)."""
import json
import os

S, C, I, P, H, F, R = 'schedules', 'crash_points', 'inputs', 'programs', 'histories', 'fault_sequences', 'configurations'
OUT = []


def p(id, title, statement, over, qtext, why, files, mech):
    assert len(title) <= 80, title
    OUT.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('C01', 'Line framing is lossless whatever the chunking',
  'Data read from a byte source (a program\'s stdout or stderr, a file, stdin) is passed on as messages which, concatenated, are exactly the source\'s bytes in order: every message but possibly the last is one whole line, cut right after its line feed, and only a source that does not end in a line feed yields a final partial line. '
  'The messages do not depend on how the operating system splits the bytes into reads, and the end of the source is reported only after every byte has been passed on. '
  'A read that fails is reported as a read error and never as the end of the data.',
  [I, S, F], 'all byte contents (empty, no final newline, CR LF, NUL, lines longer than any buffer), all ways of splitting them into reads, failing reads',
  'The unit tests feed two short strings with fixed chunk sizes through a fake reader; loss at a chunk boundary needs a particular split.',
  ['src/motion.rs'], [('separator search and overflow', 'src/motion.rs motion_read_buffer, is_split, ReadSplitControl'), ('end / error mapping', 'src/motion.rs motion_read')])
p('C02', 'A link moves every message once, in order, and then ends its output',
  'Everything read from an input is handed to its output exactly once, unchanged and in the order read, and only once the input has ended (and everything was handed over) is the output flushed (byte sinks) or closed (channels), so that the receiver sees the end; the count returned is the number of reads that were performed, the end of input included. '
  'If reading or event listeners were asked for, exactly one notification is produced per message and one for the end, and the notification channels are closed when the link ends. '
  'A spy sees a copy of every message and of the end, in order, labelled with the source, destination and port of the connection it travelled on.',
  [I, S, H], 'all message sequences, all kinds of inputs and outputs, all interleavings with the reader',
  'Tests push a handful of messages through in-memory queues with one schedule.',
  ['src/motion.rs'], [('one step', 'src/motion.rs motion_worker'), ('the loop and closing', 'src/motion.rs motion, motion_close'), ('writing', 'src/motion.rs motion_write')])
p('C03', 'A broken output is treated as its terminate, finish or consume policy says',
  'When an output can no longer take data (broken pipe or closed channel), a `terminate` connection makes the component stop with an output-closed error that names the connection and carries the refused message; a `finish` connection is tolerated, and the component stops reading without error once every one of its outputs is a finish output that has refused; a `consume` connection keeps reading its input to the end without error. '
  'The other outputs of the component still receive every message handed out before it stops. '
  'A write or flush that fails for any other reason is always reported as an error naming the connection, whatever the policy.',
  [F, S, R], 'every policy and mix of policies over any number of outputs, the output breaking after any number of messages',
  'One test breaks one output of one policy; the policies interact with the number of outputs and the moment of the break.',
  ['src/motion.rs', 'src/regulator.rs', 'src/faucet.rs', 'src/junction.rs', 'src/launch.rs'], [('policy decision', 'src/motion.rs motion_worker'), ('mapping of write failures', 'src/motion.rs motion_write, motion_close')])
p('C04', 'A junction copies every input message to every output and then ends them',
  'Every message that arrives on any input of a junction is delivered exactly once to each of its outputs, all outputs see the same sequence, and messages of one input keep their order. '
  'The junction finishes, without losing anything, when and only when all of its inputs have ended (or all outputs have refused further data under `finish`), and at that point every one of its outputs is closed; it also closes them when it stops with an error. '
  'This holds whatever the numbers of inputs and outputs (at least one of each), the priorities and the speeds of producers and consumers.',
  [S, I, R], 'all interleavings of producers and consumers, all fan-in / fan-out shapes and priorities',
  'The unit test drives three prefilled inputs by hand; removal of ended inputs while others are live depends on the order in which they end.',
  ['src/junction.rs', 'src/utils.rs', 'src/motion.rs'], [('one pass over a priority group', 'src/junction.rs junction_motion_worker'), ('pass over the groups, removal of ended inputs, closing', 'src/junction.rs Junction::iteration, start'), ('removal', 'src/utils.rs')])
p('C05', 'A junction serves inputs by ascending priority and shares within one',
  'In each pass a junction considers the groups of inputs of equal priority in ascending numeric order, whatever the order in which they were connected and whether priorities are negative, and takes nothing from a group as long as some input of a group with a lower number yielded a message or its end in that pass. '
  'Within the group being served each input that has something contributes exactly one message per pass, so that inputs that stay full are drained in equal shares.',
  [I, R, H], 'all assignments of (also negative, also equal) priorities, all orders of connecting, all contents of the inputs',
  'The unit test has two priorities, 0 and 1, connected in order.',
  ['src/junction.rs', 'src/motion.rs'], [('grouping', 'src/junction.rs Junction::initialize_stdin'), ('group scan', 'src/junction.rs Junction::iteration'), ('round robin', 'src/junction.rs junction_motion_worker')])
p('C06', 'A regulator or faucet that is paused stops, and resuming loses nothing',
  'Regulators and faucets pass their input on unchanged, in order and completely, however often they are paused and resumed, and return the number of messages passed on. '
  'After a call to pause has returned at most one further message is passed on until resume is called; pausing while paused or resuming while running changes nothing and answers false, as do pause and resume once the component has stopped. '
  'When the component stops for whatever reason its control is closed, so the one controlling it never waits for ever.',
  [S, H, F], 'all interleavings of pauses and resumes with the data, repeated pauses, pauses after the end',
  'The unit test pauses once, for 100 ms, and measures time.',
  ['src/regulator.rs', 'src/faucet.rs'], [('control handshake', 'src/regulator.rs and src/faucet.rs start_secret / control'), ('pause and resume', 'RegulatorControl, FaucetControl'), ('closing', 'start')])
p('C07', 'A buffer never blocks its producer, keeps order, and reports its true size',
  'A buffer takes any number of messages from its producer while its consumer is not reading, and delivers all of them once, unchanged and in order, ending its output only after the last. '
  'The sizes it reports to its monitor are the number of messages taken in and not yet passed on; once movement stops, the last report equals that number up to the messages in flight inside the buffer, and after the input ended and everything was passed on the last report is zero and the report channel closes.',
  [S, I, H], 'all interleavings of producer, consumer and monitor, any number of messages',
  'The unit test moves four messages.',
  ['src/buffer.rs', 'src/motion.rs'], [('two links around an unbounded queue', 'src/buffer.rs Buffer::start'), ('size accounting', 'src/buffer.rs total_in_buffer')])
p('C08', 'A regulator is paused at the high watermark and resumed at the low one',
  'For the buffers a regulator monitors, with total the sum of the last reported sizes, the regulator is paused exactly when it is running and the total is at or above the high watermark, and resumed exactly when it is paused and the total is at or below the low watermark; in between nothing changes. '
  'Every monitored buffer counts, and a buffer that has gone away counts as empty. '
  'When every monitored buffer has gone away the management ends, leaving the regulator running.',
  [H, S, R], 'all sequences of size reports of any number of buffers, all pairs low <= high, all orders in which buffers go away',
  'No test exercises it.',
  ['src/waiter.rs', 'src/regulator.rs'], [('hysteresis', 'src/waiter.rs manage_regulator_from_buffers'), ('wiring', 'src/waiter.rs Waiter::regulator_settings, configure_regulator, get_waiter')])
p('C09', 'Components accept exactly the connections they have ports for',
  'A faucet accepts no input; drains no output; drains, buffers, regulators and launches accept one input and only with priority 0; junctions any number of inputs with any priority; faucets and regulators one connection on port out; buffers one output connection on any port; launches one each on out, err and exit; junctions any number on any port. '
  'Anything else is refused with the error that names the reason (already allocated, unsupported port, unsupported priority, or unsupported input), and a refused connection leaves the component and its existing connections as they were. '
  'An accepted output connection yields the receiving end of the connection, labelled with its source and destination.',
  [I, H], 'all sequences of attempts to connect inputs and outputs, on all ports with all priorities',
  'Tests only make valid connections.',
  ['src/faucet.rs', 'src/drain.rs', 'src/buffer.rs', 'src/regulator.rs', 'src/launch.rs', 'src/junction.rs'], [('add_input / add_output', 'the Connectable implementation of each component')])
p('C10', 'The running graph is the configured one',
  'Building a pipeline from a configuration creates one component per distinct type and name, however often it is mentioned, with its configured settings, and makes exactly the connections listed: consecutive elements of each list are joined from the earlier one\'s output port to the later one\'s input with its priority and policy, and nothing is joined across lists that end in an end element. '
  'Regulators that have watermarks control themselves by the buffers they name. '
  'A configuration that cannot be built (a launch without a command, a connection a component refuses) is reported as an error and nothing is started.',
  [R], 'all configurations', 'Tests and examples run a few fixed pipelines.',
  ['src/waiter.rs'], [('construction', 'src/waiter.rs get_waiter'), ('joining', 'src/waiter.rs Waiter::join, get_src_pull, incr_id, get_id')])
p('C11', 'Rewriting connections for running preserves the data flow',
  'Splitting connection lists into pairs keeps every edge of the lists, in order, with its ports, priority and policy, and nothing else. '
  'Inserting junctions then leaves every component other than junctions with at most one edge on each output port and at most one incoming edge, reaches from every original output to exactly the original destinations through the inserted junctions only, and keeps each original edge\'s priority and policy on its own leg; the one leg between a shared port and its junction finishes (policy finish). '
  'Keys of connections and names of inserted junctions never collide with existing or other new ones, and edges that need no junction (they share neither their output port nor their destination with another) stay as they were.',
  [R], 'all configurations of well-formed connection lists (a start, middles and an end element), also with names that look like generated ones',
  'The tests of this module cover three hand-made graphs (and do not compile at the pinned commit).',
  ['src/config_manip.rs'], [('pairs', 'src/config_manip.rs break_apart*, rebuild_pair_up_connections_folder'), ('junctions', 'src/config_manip.rs add_junctions'), ('fresh names', 'src/config_manip.rs generate_new_key')])
p('C12', 'Each launch has its exit status consumed exactly once',
  'Preparing a configuration for running adds, for each launch that feeds some connection and has no connection from its exit port, exactly one connection from its exit port to one new drain that discards; launches that have an exit connection get none. '
  'The new drains and connections have names that no configured drain or connection has, and nothing else of the configuration is changed.',
  [R], 'all configurations, also with names that look like generated ones',
  'The tests cover one hand-made graph (and do not compile at the pinned commit).',
  ['src/config_manip.rs'], [('which launches', 'src/config_manip.rs identify_required_spies_for_launch_exits'), ('adding', 'src/config_manip.rs add_launch_exit_spies, connection_manipulation')])
p('C13', 'Lint reports exactly the inconsistencies of a configuration',
  'Lint reports each join string that cannot be parsed, and then nothing else; otherwise, it reports once each configured faucet, drain, regulator or launch that no connection mentions, each faucet, drain, regulator or launch that a connection mentions and that is not configured, and each monitored buffer that no connection mentions. '
  'It reports nothing for a consistent configuration, buffers and junctions need no configuration, and components of different types with the same name are told apart. '
  'Join strings that can be parsed are converted, and the rest of the configuration is left as it was.',
  [R], 'all configurations', 'Two small tests.',
  ['src/config.rs'], [('lint', 'src/config.rs Config::lint, convert_connections')])
p('C14', 'Editing a configuration changes the named item and nothing else',
  'Setting a faucet\'s source, a drain\'s destination, a regulator\'s watermarks, a connection, or a launch\'s command, path, arguments or environment changes exactly that setting of exactly the named item to the given value, creating the item with empty settings otherwise if it was missing; every other setting, item and connection is as before. '
  'Watermarks are stored as (smaller, larger) whatever the order given.',
  [R, H], 'all configurations, identifiers and values, all sequences of edits', 'No unit test covers the edits.',
  ['src/config.rs'], [('edits', 'src/config.rs Config::*_set_*, connection_join')])
p('C15', 'Join strings are parsed to exactly the connections they denote',
  'A join string of components (type or its first letter, name, optional [priority] before and [O], [E] or [X] after) separated by pipes (|, |T|, |F|, |C|, blanks around them free) denotes one start, any number of middle and one end connection with those types, names, priorities (absent or unreadable: 0), output ports (absent: out) and, on the receiving side of each pipe, that pipe\'s policy (plain: terminate); the empty string denotes no connection. '
  'Anything else is refused.',
  [I], 'all strings', 'The tests parse a few strings.',
  ['src/config.rs'], [('grammar and policy folding', 'src/config.rs load_connection_from_string, convert_to_input_breakable')])
p('C16', 'A run succeeds exactly if every component did, and reports every error',
  'A run starts every component exactly once and returns the sum of what they all counted (including the size reports read to manage regulators) if all of them succeeded; if any failed it returns exactly one error per failed component, naming its type and name, ordered by the time they happened, errors without a time first. '
  'Each error is described by the source and, where it happened on a sending end, the destination of the connection it happened on as far as they are known, else by the component that failed, and by what went wrong.',
  [F, H], 'all combinations of failing and succeeding components', 'No test runs a failing pipeline.',
  ['src/waiter.rs', 'src/bin_support.rs', 'src/motion.rs'], [('aggregation', 'src/waiter.rs Waiter::start folder'), ('description', 'src/bin_support.rs, src/motion.rs MotionError')])
p('C17', 'A launch sends its exit status once, after its output, and then closes',
  'If its exit port is connected, a launch sends exactly one message there, the decimal exit code or "_" if the program was killed by a signal, after the program has ended and its outputs have been passed on, and then closes the connection; a spy sees that message too. '
  'A program that cannot be started is reported as an error and its output connections are closed without a message.',
  [P, F], 'all exit codes and signals, all programs', 'No test looks at exit codes.',
  ['src/launch.rs'], [('status message', 'src/launch.rs Launch::start')])
p('C18', 'Waiting between fruitless polls grows from zero and stays bounded',
  'The waits between successive fruitless polls are 0, 1, 4, 9, ... milliseconds, the square of the number of fruitless polls in a row, never more than 51 squared milliseconds; any progress starts again from 0, and no number of polls overflows.',
  [H], 'all sequences of fruitless and fruitful polls', 'No test.',
  ['src/back_off.rs', 'src/junction.rs', 'src/buffer.rs', 'src/waiter.rs'], [('back off', 'src/back_off.rs BackOff')])
p('C19', 'The graph shows every component and every connection once per mention',
  'The edges drawn for a configuration are exactly the pairs of consecutive elements of its connection lists, from the earlier to the later element and via the earlier one\'s output port, in order; nothing is drawn across lists or after an end element. '
  'Every component mentioned is drawn as a node of its type.',
  [R], 'all configurations', 'No test.',
  ['src/graph.rs', 'src/config.rs'], [('edges', 'src/graph.rs convert_connection_to_graph_connection'), ('nodes', 'src/graph.rs convert_connection_components_fold, get_diagram')])
p('C20', 'Standard output of a run holds the data sent to it and nothing else',
  'When a pipeline is run, the bytes on standard output are exactly those that reached drains with destination "-": no diagnostics or progress are ever printed there. '
  'Errors are printed on standard error with exit status 1, and configuration commands print exactly one line holding the resulting configuration as JSON.',
  [R, I], 'all configurations and inputs', 'The end to end tests compare three outputs.',
  ['src/bin/pa2.rs', 'src/config_manip.rs', 'src/motion.rs'], [('printing', 'src/bin/pa2.rs main and every println!')])
p('C21', 'Drains write to, and faucets read from, the configured place',
  'A drain with destination "-" writes to standard output, "_" to standard error, "/dev/null" nowhere, and any other to a newly created or truncated file of that name that holds exactly the data once the run has ended; a faucet with source "-" reads standard input and any other the file of that name. '
  'A file that cannot be opened is reported as an open error naming the connection, and whatever is downstream of a faucet still ends. '
  'A drain without a connection reports an error.',
  [I, F, R], 'all destinations, sources and contents', 'One test per place at most.',
  ['src/drain.rs', 'src/faucet.rs'], [('destination', 'src/drain.rs Drain::start'), ('source', 'src/faucet.rs Faucet::start')])
p('C22', 'A launch runs the configured program with its arguments, directory, streams',
  'The program is started with exactly the configured arguments, in the configured directory (else the current one), and with the configured variables on top of pipeawesome2\'s own environment. '
  'Its standard input is the connected input and is closed when that ends; an unconnected stdin, stdout or stderr is the null device, and connected stdout and stderr are passed on completely and separately.',
  [P, R], 'all arguments, directories, environments and sets of connected ports', 'No test sets a directory or environment.',
  ['src/launch.rs', 'src/waiter.rs'], [('environment', 'src/launch.rs Launch::environment_configure'), ('streams', 'src/launch.rs Launch::start')])
p('C23', 'A pipeline whose inputs end comes to its end',
  'Once the inputs of a pipeline have ended and its programs end when their input does, every component stops and the run returns, whatever the speeds of the parts and also if some component fails.',
  [S, F, R], 'all pipelines and fair schedules', 'Tests run three pipelines.',
  ['src/waiter.rs', 'src/motion.rs', 'src/junction.rs', 'src/buffer.rs'], [('closing of channels on every exit path', 'start functions of all components')])

if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for o in OUT:
            f.write(json.dumps(o) + '\n')
