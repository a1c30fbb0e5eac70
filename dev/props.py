P = []


def prop(id, title, statement, over, quant, why, files, mech, technique='', **kw):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), quant=quant, why=why, files=files.split(),
                  mech=mech, technique=technique, **kw))


IRPS = 'path-sensitive abstract interpretation of the LLVM IR (interprocedural property simulation)'

prop('C01', 'Locks are balanced on every path including thread cancellation',
     'Every mutex a thread acquires is released exactly once on every path that ends a call or a thread, including the path taken when the '
     'thread is cancelled at any blocking call. No thread locks a mutex it already holds, unlocks or waits with one it does not hold, and '
     'all threads nest mutexes in one global order, so components can always be stopped and no two threads deadlock.',
     'schedules crash_points', 'all paths of all entry points, every cancellation point on them, all interleavings',
     'Tests stop components at a handful of moments; a lock leaked by a cancellation at one particular blocking call, or by one early return, shows only then.',
     'src/core/buffer.c src/core/network.c src/core/gps.c src/util/threads.h src/util/component.c src/util/util.c src/dump1090/req-serial.c',
     [('cleanup handlers which unlock', 'src/util/threads.h'), ('lock/unlock pairs', 'src/core')], IRPS + ' with a lock typestate')

prop('C02', 'No lost or spurious wakeups between threads',
     'A thread blocking until some condition of another thread holds (a frame is queued, the connection is up or lost, a serial number arrived) '
     'continues only if it really holds or its deadline passed, even after a spurious wakeup, and its deadline is a valid absolute time. '
     'Every change of state which another thread may be waiting for is announced to all threads waiting for it before the thread making the change '
     'blocks, enters another critical section or returns to its caller.',
     'schedules', 'all interleavings of waiting and signalling threads, spurious wakeups, all paths which change waited-for state',
     'Whether a wakeup is lost depends on the interleaving; the tests run single-threaded or under one schedule.',
     'src/core/buffer.c src/core/network.c src/util/util.c src/dump1090/req-serial.c',
     [('wait loops', 'src/core/buffer.c, src/core/network.c'), ('broadcasts', 'src/core/buffer.c, src/core/network.c')],
     IRPS + '; wait-predicate inference, must-signal dataflow')

prop('C03', 'Data shared between threads is only touched under its mutex',
     'The frame queue and pools, buffer statistics, connection and socket state, GPS position and its flags, and the requested serial number are '
     'each read and written only with one and the same mutex held, on every path of every function that runs while threads are running. '
     'So no thread can see or leave them half-updated, whatever the schedule.',
     'schedules', 'all interleavings of all threads; all paths of all entry points',
     'A data race shows only under a particular interleaving, and tests run these modules from one thread.',
     'src/core/buffer.c src/core/network.c src/core/gps.c src/dump1090/req-serial.c',
     [('one static mutex per module', 'src/core/buffer.c, src/core/network.c, src/core/gps.c')], IRPS + ' with locksets')

prop('C04', 'Frame buffers are conserved: each one taken is given back exactly once',
     'Every frame the receiver takes from the pool is either committed or aborted, and every frame the relay takes from the queue is either released or '
     'put back, exactly once on every path, including when the thread is cancelled; it is not used afterwards. '
     'Inside the buffer each operation moves exactly that one frame between pool and queue (a flush moves the whole queue), so none is leaked, duplicated or in two places.',
     'inputs schedules crash_points', 'all paths through receive, relay and feed functions, every cancellation point, all buffer operations in any state',
     'A leak on a rare path (cancel, resync, network failure) only exhausts the pool after long operation; tests do not observe it.',
     'src/core/buffer.c src/core/recv.c src/core/relay.c src/trimble src/gplib/opensky.cc src/radarcape/lib/opensky.cc',
     [('getFrameFromPool, commit, abort, release, put', 'src/core/buffer.c'), ('cleanup handlers', 'src/core/recv.c, src/core/relay.c')],
     IRPS + ' with an ownership typestate')

prop('C05', 'Frames keep their order; only the oldest is dropped, only if unavoidable',
     'Frames leave the queue in the order they were committed; a frame put back is the next to leave. A queued frame is discarded only when no free '
     'frame exists and no further pool may be allocated, it is then the oldest one and it is counted. Pools grow only up to the configured maximum, '
     'not at all without history; a login discards stale frames exactly if history is disabled.',
     'histories inputs', 'all sequences of buffer operations, all fill levels, all configurations',
     'The number of histories of queue, pool and dynamic-pool states is unbounded; tests try short ones.',
     'src/core/buffer.c', [('getFrameFromPool', 'src/core/buffer.c'), ('BUF_flushUnlessHistoryEnabled', 'src/core/buffer.c')],
     IRPS + ' on list events and counters')

prop('C06', 'The relay sends only after login, each frame once, keep-alives when idle',
     'On every new connection the relay logs in first, then flushes stale frames if history is off, and only then sends; nothing is sent after a failed '
     'login or send until a new connection is up. A frame is dropped from the buffer only after it was sent completely and is put back if sending '
     'failed; if no frame arrives within the configured timeout a keep-alive is sent. Nobody but the relay thread sends.',
     'histories schedules', 'all paths of the relay thread over any sequence of connects, failures, frames, timeouts and cancellations',
     'Failures at each point of the session and their combinations are unbounded; no test runs the relay.',
     'src/core/relay.c src/core/gps.c', [('mainloop', 'src/core/relay.c')], IRPS + ' with a protocol typestate; call-graph reachability per thread')

prop('C07', 'Logging in sends device id, serial number, position and user, or fails',
     'A login sends the device id first, then the serial number, then the GPS position (unless deferred) and the user name (exactly if one is set), each once, '
     'big-endian, and carrying the configured device type, the assigned serial number, the last position and the user name. '
     'Once one of them cannot be sent or no serial number is available, nothing else is sent and the login fails; otherwise it succeeds.',
     'inputs histories', 'all values of type, serial number, position and user; failure of any send; any result of obtaining the serial number',
     'The login is never executed by the tests; its failure paths depend on where the connection breaks.',
     'src/core/login.c src/core/gps.c src/util/endec.h', [('LOGIN_login', 'src/core/login.c'), ('sendPosition', 'src/core/gps.c')],
     IRPS + ' with a byte-level value domain')

prop('C08', 'Everything sent is a well-formed frame of the protocol',
     'Every message sent or queued is a SYNC byte, a known type and exactly the payload this type has, with every SYNC byte inside the payload doubled and '
     'everything else unchanged, and its length is exactly that of these bytes. Frames submitted through the libraries are encoded alike. '
     'This holds for any payload, and no payload overflows the buffer it is encoded into.',
     'inputs', 'all payload bytes, all lengths, all message types, all senders',
     'The tests encode a few short buffers; the escaping and buffer sizes matter for payloads full of SYNC bytes at any position.',
     'src/core/beast.c src/core/login.c src/core/gps.c src/core/relay.c src/core/serial_eth.c src/dump1090/req-serial.c src/radarcape/lib/opensky.cc src/gplib/opensky.cc',
     [('BEAST_encode', 'src/core/beast.c'), ('message buffers', 'src/core/*.c'), ('OPENSKY_submitFrame', 'src/radarcape/lib/opensky.cc')],
     'loop-invariant proof by abstract interpretation (relational domain); ' + IRPS)

prop('C09', 'No data of the server and no configuration file can overflow a buffer',
     'Whatever the server sends, in whatever pieces it arrives, receiving it, splitting it into commands and executing these accesses no memory outside the '
     'receive buffer, the command table and the buffers of the handlers. Whatever a configuration file (or a directory of them) contains, '
     'reading it writes nothing behind the variables of the options or any buffer used meanwhile.',
     'inputs', 'all byte streams of the server in all fragmentations; all configuration files and directories; all default values',
     'Lengths and fragmentation are unbounded and attacker-controlled; the tests use a few well-formed ones.',
     'src/core/tb.c src/core/network.c src/util/cfgfile.c',
     [('mainloop', 'src/core/tb.c'), ('parseOption', 'src/util/cfgfile.c'), ('NET_receive', 'src/core/network.c')],
     'relational abstract interpretation (intervals, differences) of the IR with an object-bounds rule')

prop('C10', 'Commands of the server are executed exactly if complete and well-formed',
     'However the bytes of a connection arrive in pieces, each command is executed once, in order and as soon as it is complete, by the handler registered for its type '
     'and with its payload, if its length is the one expected for its type; other well-formed commands are skipped, a length below 4 or above 128 drops what was received, '
     'and a lost connection drops everything. A filter command changes exactly the filters its mask selects, to the values it gives.',
     'inputs', 'all byte streams, all fragmentations, all tables of handlers, all reconnects at any point; all 65536 payloads of the filter command',
     'Fragmentation and sequences of commands are unbounded; no test runs the thread receiving commands.',
     'src/core/tb.c', [('mainloop', 'src/core/tb.c'), ('processPacket', 'src/core/tb.c'), ('packetConfigureFilter', 'src/core/tb.c')],
     'relational abstract interpretation of the IR against a model of the byte stream')

prop('C11', 'A message is sent completely and in one piece, or sending reports failure',
     'However many bytes of a message the system accepts at once, sending continues with exactly the bytes not sent yet, with a mutex held from the first to the last one so that '
     'messages are never mixed, and succeeds exactly if all bytes were sent; after a failure nothing more of the message is sent. Receiving reports exactly the bytes received on the '
     'connection, and a failure whenever the connection was lost, even if there is a new one already.',
     'inputs schedules', 'all lengths and contents, all sequences of partial sends and failures, cancellation at any point',
     'Partial sends depend on the kernel; tests never see one, and concurrent senders need a schedule.',
     'src/core/network.c', [('trySend', 'src/core/network.c'), ('NET_send', 'src/core/network.c'), ('NET_receive', 'src/core/network.c')],
     'relational abstract interpretation of the IR; lock typestate')

prop('C12', 'Sender and receiver each see every connection loss once; sockets are closed once',
     'When the connection is lost, the side noticing it first is disconnected and the other one sees its old socket fail, also if a new connection is up already; then both use the same '
     'new connection. A lost connection is always established again, no socket is used after closing it, closed twice or never closed, whatever the order in which both sides notice '
     'failures, and the check for a connection says whether the sender has to start over.',
     'histories schedules', 'all sequences of losses noticed by sender or receiver, checks, forced disconnects and reconnects',
     'The state machine is reached only by specific interleavings of two threads and the network.',
     'src/core/network.c', [('emitDisconnect', 'src/core/network.c'), ('mainloop', 'src/core/network.c'), ('NET_checkConnected', 'src/core/network.c')],
     'inductive invariant of a finite typestate by abstract interpretation of every operation from every state')

prop('C13', 'Frames delivered by the Radarcape parser are exactly those received',
     'However the bytes of a connection arrive in pieces, every frame (a SYNC, a known type, header and payload with each SYNC doubled) is delivered once and in order, with the raw frame being '
     'the bytes received, and type, timestamp, signal level and payload decoded from them. Unknown types, and a SYNC which is not doubled, only drop the frame they are in: a frame beginning there '
     'is delivered. No data of an old connection is used, and failure is reported exactly if the connection is lost.',
     'inputs', 'all byte contents, all frame types, resynchronizations at every place; pieces received of up to 40 bytes of several sizes and their mixtures, up to two escapes per frame',
     'Where the pieces are split within a frame, an escape or while resynchronizing is up to the receiver; tests use some splits.',
     'src/radarcape/rc-parser.c', [('INPUT_getFrame', 'src/radarcape/rc-parser.c'), ('decode', 'src/radarcape/rc-parser.c'), ('synchronize', 'src/radarcape/rc-parser.c')],
     'abstract interpretation of the IR against a stream automaton (data symbolic, positions enumerated)')

prop('C14', 'Frames delivered by the Trimble GPS parser are exactly those received',
     'However the bytes of a connection arrive in pieces, every packet (BOM, an identifier which is neither BOM nor EOM, data with each BOM doubled, BOM and EOM) shorter than the buffer '
     'offered is delivered once, in order and unescaped, with its length. Longer packets, packets interrupted by another one and bytes outside of packets are skipped without losing the '
     'next packet. No data of an old connection is used, and failure is reported exactly if the connection is lost.',
     'inputs', 'all byte contents, resynchronizations at every place; frame buffers of 4 to 7 bytes, pieces received of 1 to 5 bytes and mixtures, up to two escapes per packet',
     'Where the pieces are split within a packet, an escape or while resynchronizing is up to the receiver; there are no tests of the GPS receiver.',
     'src/trimble/trimble_parser.c', [('TRIMBLE_PARSER_getFrame', 'src/trimble/trimble_parser.c'), ('decode', 'src/trimble/trimble_parser.c'), ('synchronize', 'src/trimble/trimble_parser.c')],
     'abstract interpretation of the IR against a stream automaton (data symbolic, positions enumerated)')

prop('C15', 'A position is sent iff it was asked for and is known, and is the last one set',
     'A position is sent only if it was asked for, and only while position and fix are both known; it is always the position set last. If it was asked for while it was not known, or sending '
     'such a deferred one failed, it is sent as soon as it is known, updated or resent, also if the GPS receiver was reset in between, until the request is dropped. Asking succeeds exactly if the '
     'position was sent or deferred.',
     'histories', 'all sequences of setting position and fix, losing the fix, asking, resetting and dropping the request, with sending failing at any time',
     'The order of GPS events, logins and failures is up to the environment; tests play some sequences, none with a fix that comes or goes or a deferred sending that fails.',
     'src/core/gps.c', [('GPS_sendPosition', 'src/core/gps.c'), ('sendPositionIfAvail', 'src/core/gps.c'), ('GPS_reset', 'src/core/gps.c')],
     'exhaustive abstract interpretation of call histories against a model')

prop('C16', 'GPS positions are taken from each valid packet, and from valid packets only',
     'The position of a Trimble timing packet is used if and only if the packet is complete, the receiver is in over-determined clock mode, locked to GPS and doing fixes, without critical '
     'alarms, self survey or test mode; latitude and longitude are converted from radians to degrees. When the receiver is connected anew, a position of an earlier connection is forgotten '
     'first; the receiver is disconnected before it is connected again and when its thread ends.',
     'inputs histories', 'all values of every status field (one deviating at a time, all minor alarms per byte), all positions, any number of packets and reconnects',
     'There are no tests of the GPS receiver; a wrong position is sent only in rare states of the receiver.',
     'src/trimble/trimble_recv.c', [('posFrame', 'src/trimble/trimble_recv.c'), ('mainloop', 'src/trimble/trimble_recv.c')],
     'abstract interpretation of the IR (status fields enumerated, values symbolic); typestate')

prop('C17', 'A frame received is buffered exactly if it passes the filters',
     'Every frame received is judged by the filters once, with its own type and first payload byte, and is buffered if and only if it passes: Mode-S only, only downlink formats 17 and 18 if '
     'the extended squitter filter is on, and only while the receiver is synchronized if the synchronization filter is on. The receiver counts as synchronized from the first status frame with a timestamp '
     'until it is connected anew. A change of the extended squitter filter takes effect at once and the input is told.',
     'inputs histories', 'all frame types and first bytes, all sequences of configuring, synchronizing, resetting and receiving, lost connections and cancellation at any time; also the functions of the libraries',
     'The filter has state which depends on the history of connections; tests configure each filter once and play a few frames.',
     'src/core/recv.c', [('mainloop', 'src/core/recv.c'), ('FILTER_filter', 'src/core/filter.c'), ('output_message', 'src/radarcape/lib/opensky.cc'), ('output_message', 'src/gplib/opensky.cc')],
     'exhaustive abstract interpretation of call histories against a model; typestate')

prop('C18', 'The Radarcape receiver is configured as the filter demands before it is used',
     'Whenever the receiver was connected, all its options are set according to the configuration before frames are read, and if setting one of them failed, it is connected again. '
     'A change of the extended squitter filter sets exactly the frame filter of the receiver to the new value.',
     'inputs', 'all combinations of the options, each write failing or being incomplete',
     'The options are sent to a device no test has, and tests do not look at what is written.',
     'src/radarcape/rc-parser.c', [('configure', 'src/radarcape/rc-parser.c'), ('INPUT_connect', 'src/radarcape/rc-parser.c'), ('INPUT_reconfigure', 'src/radarcape/rc-parser.c')],
     'abstract interpretation of the IR: what is written on every path')

prop('C19', 'The feeder libraries take frames only while enabled and start in a clean state',
     'Frames submitted to the feeder libraries are judged exactly while the feeder is configured and enabled; others have no effect. Enabling starts the feeder only if configured, after dropping '
     'frames and forgetting a request for the position from before, with frames counting as synchronized as the last time status says; disabling stops it. '
     'Positions are passed on as given; there is a fix exactly if the last time status says so (or, without such a status, from setting the position to unsetting it).',
     'histories', 'all sequences of calls of the interfaces of both libraries, all kinds of frames, all values of status',
     'What a call does depends on the calls before; the test of the library plays one sequence and needs a server.',
     'src/radarcape/lib/opensky.cc', [('enable', 'src/radarcape/lib/opensky.cc'), ('output_message', 'src/radarcape/lib/opensky.cc'), ('enable', 'src/gplib/opensky.cc'), ('submitFrame', 'src/gplib/opensky.cc')],
     'exhaustive abstract interpretation of call histories against a model')

prop('C20', 'Components start after what they need, stop before it, and failures are undone',
     'Exactly the components asked for and those they depend on are registered, once each. A component is constructed and started only after all those it depends on, and stopped and destructed only after '
     'all those depending on it; disabled ones, and ones not to be started, are left out. If constructing or starting one fails, this is reported and those before are destructed, or stopped, again. Each is '
     'asked once to stop; each of its threads is joined at most once, and waiting is repeated only while that makes progress.',
     'histories', 'all graphs of dependencies of three components (threads, self-managed or passive; disabled or not), each operation of each component failing or not, any order of calls of the management',
     'Failures while starting or stopping never occur in tests, and the order follows from the graph.',
     'src/util/component.c', [('COMP_initAll', 'src/util/component.c'), ('COMP_startAll', 'src/util/component.c'), ('stopUntil', 'src/util/component.c'), ('sequentialize', 'src/util/component.c')],
     'exhaustive abstract interpretation of call histories against a model')

prop('C21', 'Descriptors, files, mappings and buffers are released once, on every path',
     'Whatever fails, and (in threads) wherever they are cancelled, everything opened, mapped or allocated is released exactly once or still owned by somebody, and nothing is used after being released. '
     'An input keeps at most one descriptor, and none after disconnecting, whatever the order of connecting, transferring, failing and disconnecting. '
     'A component failing to be constructed, or destructed, keeps nothing. Devices and sockets are not inherited by programs executed.',
     'inputs histories', 'all outcomes of all system calls, all paths; cancellation at every cancellation point of threads; lists of at most two addresses; all histories of the inputs',
     'The leaks are on paths which fail, and matter only for a program running for months.',
     'src/util/port/mmap-posix.c', [('MMAP_open', 'src/util/port/mmap-posix.c'), ('NETC_connect', 'src/util/net_common-posix.c'), ('doConnect', 'src/radarcape/uart.c'), ('program', 'src/radarcape/fpga.c')],
     'ownership typestate by abstract interpretation of the IR')

prop('C22', 'Commands of the server never duplicate or end the daemon',
     'Whatever fails while a command of the server is executed, a process forked for it executes a program or ends, but never continues as a second daemon, and never waits for a lock which another '
     'thread may have held when it was forked; the daemon itself never ends and is only replaced by itself, in the same mode of operation. '
     'A command counts as successful exactly if its process exited with success; the daemon is not restarted after a failed upgrade. Programs get complete arguments (with the address of the server as sent) and '
     'not the standard input of the daemon.',
     'schedules fault_sequences', 'all outcomes of forking, detaching, executing and waiting; all kinds of exit status; with and without systemd and pacman',
     'Forking and executing never fail in tests, no test has several threads, and the handlers cannot be run in one.',
     'src/util/proc.c', [('PROC_forkAndExec', 'src/util/proc.c'), ('PROC_execAndReturn', 'src/util/proc.c'), ('TB_upgradeDaemon', 'src/radarcape/tb-misc.c'), ('TB_restartDaemon', 'src/radarcape/tb-misc.c'),
                         ('TB_reverseShell', 'src/radarcape/tb-rshell.c')],
     'process typestate by abstract interpretation of the IR')

prop('C23', 'Failed connections are retried forever, after a pause, with every address',
     'A connection or device which could not be connected or configured is tried again, after a pause which has a length and can be cancelled, whatever the configuration; data is waited for, and a device which failed '
     'is connected anew; no thread spins or ends. Connecting to a host tries every address of it once, in any order, with its family and the port wanted, until one succeeds, whose socket is the result; it fails only if all failed.',
     'fault_sequences histories configurations', 'all outcomes of all system calls on all paths of all threads, all values of the options; all orders and families of up to three addresses',
     'Busy loops and forgotten addresses show only when devices or networks fail, for hours; tests have no devices.',
     'src/radarcape/uart.c', [('RC_INPUT_connect', 'src/radarcape/uart.c'), ('RC_INPUT_read', 'src/radarcape/uart.c'), ('mainloop', 'src/core/network.c'), ('NETC_connect', 'src/util/net_common-posix.c'),
                              ('cfgFix', 'src/core/buffer.c')],
     'typestate by abstract interpretation of the IR of each thread')
prop('C24', 'Receiving frames never waits for the network',
     'Receiving and buffering a frame is never held up by another activity which waits: whatever a thread does which waits for a peer, a device, a position, time or an event, it holds no lock which the reception of frames '
     'needs, directly or through further locks. Frames are put into the buffer without waiting for space or for a reader, whether frames are received by the daemon itself or handed to the library.',
     'schedules inputs fault_sequences', 'all interleavings of all threads, as all lock regions on all paths of all entry points are compared; any duration of any wait',
     'A lock held while waiting stalls the reception only when the network is slow or the other side is silent; tests never wait.',
     'src/core/buffer.c', [('BUF_newFrame', 'src/core/buffer.c'), ('BUF_commitFrame', 'src/core/buffer.c'), ('mainloop', 'src/core/recv.c'), ('NET_send', 'src/core/network.c'),
                           ('GPS_sendPosition', 'src/core/gps.c')],
     'lock-order and blocking-effect analysis: locks held while waiting, closed over lock nesting, against the locks of the receivers')
prop('C25', 'The serial number is stored before it is used and stays the same',
     'Asking for the serial number yields the one configured, the one last assigned by the server, or the lowest 31 bits of the address of the network device, the same each time, and fails if there is none. '
     'A number is requested from the server only while none is known, once per attempt; one which was assigned, whenever the answer arrives, is not used before it was stored where it is read at the next start. '
     'Giving up means that the connection failed or is given up; a device without address is reported for good.',
     'histories fault_sequences schedules', 'all histories of asking, answers of the server before, while and after waiting, and failures of sending, of the connection, of storing and of reading the address; all addresses and numbers',
     'Whether the number survives a restart shows only with a second start after an answer at an unusual time; tests do not cover serial numbers.',
     'src/dump1090/req-serial.c', [('SERIAL_getSerial', 'src/dump1090/req-serial.c'), ('serialResponse', 'src/dump1090/req-serial.c'), ('SERIAL_ETH_getSerial', 'src/util/serial_eth.c')],
     'abstract interpretation of the IR over all histories of calls against a model, answers injected at each wait')

prop('C26', 'The daemons run only with a consistent configuration, and end in order',
     'A daemon starts its components only after the configuration, with the one of the administrator read last and replacing presets and default values, was found consistent; as the type of device it is, for the user configured, and '
     '(for Radarcape) with a serial number or a chance for one. Any failure before ends it and is reported in its exit status; saving the configuration succeeds only if it was written. '
     'It ends only when told so by SIGINT, after stopping everything; the watchdog runs only with the hardware at hand and without privileges, which are given up for good or not at all.',
     'fault_sequences configurations', 'all paths of the main functions of all daemons; all outcomes of reading, checking, writing, initializing and starting; all options of the command line',
     'The main functions are in no test, and inconsistent or unreadable configurations show only then.',
     'src/radarcape/main.c', [('main', 'src/radarcape/main.c'), ('main', 'src/dump1090/dump1090.c'), ('main', 'src/radarcape/wd-main.c'), ('UTIL_dropPrivileges', 'src/util/util.c'), ('UTIL_waitSigInt', 'src/util/util.c')],
     'typestate by abstract interpretation of the IR of the main functions')
prop('C27', 'A fatal error always ends the process, other messages never; none is lost',
     'Reporting a fatal error ends the process, with failure, after the message was written out; reporting anything else never does. Each message is written completely, once: its level, its component if there is one, its text and, if it has '
     'one, the error code of the moment of the call. Messages of several threads are never mixed, and the levels are told apart.',
     'inputs schedules', 'all functions writing messages of daemons and libraries, all levels, all error codes, with and without component; all interleavings, as each message is written within one lock region',
     'Tests cannot survive a fatal error, and replace what writes messages; the rest of the code relies on fatal errors not returning.',
     'src/util/log_stdio.c', [('LOG_logf', 'src/util/log_stdio.c'), ('LOG_log', 'src/util/log_stdio.c'), ('logWithErr', 'src/util/log_stdio.c'), ('LOG_log', 'src/radarcape/lib/log_lib.cc'), ('LOG_log', 'src/gplib/log_lib.cc')],
     'effect analysis by abstract interpretation of the IR for each level')

prop('C28', 'A configuration is consistent only if complete and within range',
     'A configuration is accepted exactly if every section of it is: a server needs its name and a port; a file to be written for another program needs a name if it is to be written; the position of a receiver needs latitude, longitude and altitude, '
     'all configured, with the latitude between -90 and 90 and the longitude between -180 and 180 (never NaN). '
     'Checking changes nothing. Numbers which would stop the daemon from working (intervals, timeouts, sizes of buffers) are replaced by the smallest ones which work, never refused, and others are left alone; '
     'history gets the dynamic backlog it needs, and garbage is collected only with history.',
     'configurations inputs', 'all values of all options of all sections of all daemons: strings empty or not, integers in their full range, real numbers in all intervals between the constants compared with, and NaN and infinities',
     'Tests use one consistent configuration; the daemon works with the values without checking them again.',
     'src/core/network.c', [('checkCfg', 'src/core/network.c'), ('cfgFix', 'src/core/buffer.c'), ('checkCfg', 'src/dump1090/position.c'), ('CFG_check', 'src/util/cfgfile.c')],
     'abstract interpretation of the IR of all checks and adjustments, real numbers split at the constants compared with')

prop('C29', 'Options have the value configured last, or their default; saving keeps it',
     'Whatever files are read, an option has the value of the last line naming it and its section (in any case, as a whole), if that value is of its type and within its range, and is then marked as given; if the value is empty or '
     '(where permitted) invalid, it has its default and is not given; options not named stay untouched. Files of a directory are read in the order of their numbers, and all sections are adjusted after each. '
     'Setting an option changes only this one; saving writes each section once with all its options and values, except options not given, changes nothing and fails if anything could not be written.',
     'inputs configurations fault_sequences', 'all paths of reading files of any size and contents for each type of option; all names and numbers of files; all outcomes of opening, writing and closing for all registered sections (two, with equal or different names)',
     'The parser is tested with a few well-formed files; a wrong option or a lost value shows only in the field.',
     'src/util/cfgfile.c', [('parseOption', 'src/util/cfgfile.c'), ('assignOptionFromString', 'src/util/cfgfile.c'), ('CFG_readDirectory', 'src/util/cfgfile.c'), ('CFG_loadDefaults', 'src/util/cfgfile.c'), ('writeSections', 'src/util/cfgfile.c')],
     'abstract interpretation of the IR of reading, setting and writing, for each type of option, the position in the file arbitrary')

prop('C30', 'Only own pins are driven; the FPGA gets its file, the watchdog its pulses',
     'An operation on a pin changes or reads exactly this pin, in the register and at the address of the hardware manual. Outputs are driven and inputs read only after configured as such, and the FPGA and the watchdog share no pin. '
     'The FPGA counts as programmed exactly if, after a reset it acknowledged, all bytes of the file were clocked in completely, in order, lowest bit first, each accepted, and it reported to be done; otherwise it is tried again, then reported. '
     'The watchdog gets a pulse at least every 30 seconds, as long as the daemon runs.',
     'inputs fault_sequences', 'all pins and registers; all states of the inputs at each time they are read; files of any size, with bytes telling all positions of bits apart; all outcomes of opening and mapping; both types of boards',
     'The hardware is in no test; a receiver which is programmed wrong or restarted by its watchdog stops working in the field.',
     'src/radarcape/fpga.c', [('program', 'src/radarcape/fpga.c'), ('transfer', 'src/radarcape/fpga.c'), ('GPIO_set', 'src/radarcape/gpio.c'), ('GPIO_setDirection', 'src/radarcape/gpio.c'), ('mainloop', 'src/radarcape/watchdog.c')],
     'typestate over pins and registers by abstract interpretation of the IR, positions in the file arbitrary')

prop('C31', 'Every frame received while connected reaches the server exactly once, in order',
     'Over any history of connections, each frame which was received and neither filtered nor discarded for lack of space is delivered to the server exactly once and in the order of reception.',
     'histories fault_sequences', 'all histories of connections, including those ended by either side with data in flight',
     'Losses show only if connections break under load.',
     'src/core/relay.c', [('NET_send', 'src/core/network.c'), ('BUF_releaseFrame', 'src/core/buffer.c')],
     na='what was delivered when a connection breaks is known to the kernel and the peer only (bytes accepted by send() may never arrive); the protocol has no acknowledgements, so no property of the source decides it. '
        'What the source does decide is claimed: buffering keeps frames once and in order (C04, C05), sending repeats or abandons a frame as specified (C02, C11), filtering and statistics (C17)')
prop('C32', 'A sensor is online again within a bounded time after the server is',
     'Once the server accepts connections again, a daemon is connected and has announced itself within the reconnection interval plus the time a connection takes.',
     'schedules fault_sequences', 'all times at which connections break, all durations of name resolution, connecting and scheduling',
     'Outages of the server are long and rare.',
     'src/core/network.c', [('mainloop', 'src/core/network.c'), ('NETC_connect', 'src/util/net_common-posix.c')],
     na='bounds the durations of getaddrinfo(), connect() and of scheduling, which are run-time quantities of the resolver, the kernel and the peer; the part without time (always tried again, after a finite pause, with every address) is claimed as C23')
prop('C33', 'Positions sent are those of the receiver up to the precision of the format',
     'A position from the GPS receiver or the configuration is sent to the server with an error below the resolution of the format, for all positions on earth.',
     'inputs', 'all positions, in radians or degrees, single or double precision',
     'Tests use few positions; rounding differs by position.',
     'src/trimble/trimble_parser.c', [('GPS_setPosition', 'src/core/gps.c'), ('GPS_sendPosition', 'src/core/gps.c')],
     na='needs error bounds of floating-point conversions (multiplication with 180/pi in the target\'s rounding), which no dataflow or typestate analysis built here gives and whose tools (Frama-C Eva, solvers) execute or solve; '
        'the byte order, the fields and when a position is sent are claimed as C10, C15 and C16')
