#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))
S='trick_source/sim_services/'; U='trick_source/trick_utils/'

p('C01','Scheduled jobs run at exactly their times and in exactly the declared order',
 'In a running simulation every enabled scheduled job is called at exactly start, start+cycle, start+2*cycle, ... up to its stop time and the termination time, and at no other simulation time, with the simulation clock reading that time. Jobs due at the same time run in order of job class, then phase, then order of their simulation object, then order of declaration. Frame-boundary jobs run exactly once per software frame, initialization jobs once before time starts, and shutdown jobs once at the end.',
 ['configurations','inputs'],'for every set of jobs (class, phase, object, cycle, start, stop, enabled), software frame, termination time and time tic',
 'Unit tests and test sims try about a dozen job tables; the failures live in combinations of offsets, stop times and frames nobody wrote down.',
 [S+'Executive/Executive_loop_single_thread.cpp',S+'Executive/Executive_advance_sim_time.cpp',S+'Executive/Executive_add_jobs_to_queue.cpp',S+'ScheduledJobQueue/ScheduledJobQueue.cpp',S+'SimObject/JobData.cpp'],
 [('sorted job queue and next-call scan','ScheduledJobQueue::push/find_next_job'),('time advance to the lowest next call time','Executive::advance_sim_time')],
 ['job call trace with simulation time'])
p('C02','Run-time job control changes exactly the commanded jobs from then on',
 'Turning a job, tag or simulation object off and on, changing a cycle, adding a simulation object between frames or removing one, at any point of a run and in any order, changes only the calls of the named jobs from that point on. Every other job keeps its exact schedule and order, no due job is skipped and none is called twice.',
 ['histories'],'for every sequence of job-control commands interleaved with job execution',
 'Tests issue single commands between steps; skipped or repeated calls need a command issued from inside a job, at a particular place of the queue.',
 [S+'Executive/Executive_set_job_onoff.cpp',S+'Executive/Executive_set_simobject_onoff.cpp',S+'Executive/Executive_set_job_cycle.cpp',S+'Executive/Executive_remove_jobs.cpp',S+'Executive/Executive_instrument_job.cpp',S+'ScheduledJobQueue/ScheduledJobQueue.cpp',S+'SimObject/JobData.cpp'],
 [('queue cursor kept valid across push and remove','ScheduledJobQueue::push/remove'),('saved job states','Executive::set_sim_object_onoff')],
 ['job call trace','job on/off and cycle getters'])
p('C03','Freeze, run and stop commands move the simulation through its modes exactly',
 'A freeze requested for now or for a given time stops simulation time exactly at the next permitted point (immediately at the requested time, or at the frame boundary when so configured), no run-mode job is called while frozen, and on resuming the job sequence continues as if the freeze had not happened. Freeze-entry, freeze-frame, periodic freeze and unfreeze jobs are called the right number of times in order, and a stop request or stop time ends the run exactly once with shutdown jobs called once and final time equal to the stop time.',
 ['histories'],'for every sequence of freeze/run/stop commands and times, from run mode, freeze mode and initialization',
 'Mode changes are exercised by a handful of unit cases; ordering of several pending freeze times, redundant commands and stop during freeze are combinatorial.',
 [S+'Executive/Executive_freeze.cpp',S+'Executive/Executive_freeze_loop.cpp',S+'Executive/Executive_loop_single_thread.cpp',S+'Executive/Executive_shutdown.cpp',S+'Executive/Executive_run.cpp',S+'Executive/Executive_stop.cpp'],
 [('pending command consumed at the loop top','Executive::loop_single_thread'),('ordered queue of freeze times','Executive::freeze')],
 ['mode/time/job call trace','shutdown return code'])
p('C04','Threaded runs respect time steps and job dependencies on every schedule',
 'With jobs spread over synchronous, asynchronous-must-finish and asynchronous threads, under every interleaving each thread calls its own jobs at exactly their times and in order, time never advances past unfinished synchronous work, must-finish frames are complete at their sync time, and a job never starts before the jobs of the main and synchronous threads it depends on have finished that step. The run never deadlocks, and without cross-thread asynchrony the calls made equal those of the same jobs on one thread.',
 ['schedules','configurations'],'for every interleaving of main and child threads up to the preemption bound, every thread trigger type and thread configuration in the bound',
 'Tests run whatever interleaving the OS picks; races between flag updates and triggers need a preemption at one particular instruction.',
 [S+'Executive/Executive_loop_multi_thread.cpp',S+'Executive/Threads_child.cpp',S+'Executive/ThreadTrigger.cpp',S+'Executive/Executive_thread_sync.cpp',S+'Executive/Executive_scheduled_thread_sync.cpp',S+'Executive/Executive_isThreadReadyToRun.cpp'],
 [('child_complete / complete flags','Threads::thread_body'),('thread triggers','ThreadTrigger.cpp')],
 ['per-thread job trace with start/finish order'])
p('C05','Managed memory: names, addresses and storage stay consistent over any history',
 'After any sequence of declare, anonymous allocate, map-external, resize, clear and delete operations, the memory manager knows exactly the live allocations: each has its declared type, dimensions, name and zero-initialised storage, none overlap, resizing preserves the common prefix and zeroes the rest, deleted names and addresses are unknown, and a name in use is refused. External objects are never freed and their storage is never altered by registration or removal.',
 ['histories'],'for every operation sequence up to the depth bound over the type and shape alphabet',
 'The unit tests run one or two operations on a fresh manager; stale map entries only show after particular multi-step histories.',
 [S+'MemoryManager/MemoryManager_declare_var.cpp',S+'MemoryManager/MemoryManager_delete_var.cpp',S+'MemoryManager/MemoryManager_realloc.cpp',S+'MemoryManager/MemoryManager_alloc_info_map.cpp',S+'MemoryManager/MemoryManager_clear_memory.cpp',S+'MemoryManager/MemoryManager_map_external_object.cpp'],
 [('alloc_info_map and variable_map kept in step','MemoryManager')],
 ['is_alloced, var_exists, ref_attributes, get_size, get_truncated_size, storage contents'])
p('C06','Variable references and addresses resolve to each other exactly',
 'For every variable and every member, element, pointer step and STL element reachable in it, resolving its reference name yields exactly the address, type and remaining dimensions that C++ gives that expression, and naming an address yields a reference that resolves back to it. Out-of-range indices, unknown members and null pointer steps are reported as errors rather than resolved to some other storage.',
 ['inputs'],'for every reference expression up to the nesting bound over structs, arrays, pointers, bitfields and inheritance',
 'Tests name a few dozen references; index arithmetic errors appear only in particular dimension/offset combinations.',
 [S+'MemoryManager/MemoryManager_ref_attributes.cpp',S+'MemoryManager/MemoryManager_ref_dim.cpp',S+'MemoryManager/MemoryManager_ref_name.cpp',S+'MemoryManager/MemoryManager_ref_name_from_address.cpp',S+'MemoryManager/MemoryManager_ref_var.cpp',S+'MemoryManager/RefParseContext.cpp',S+'MemoryManager/ref_parser.y'],
 [('reference parser and dimension walk','ref_dim/ref_name')],
 ['ref_attributes result','ref_name_from_address result'])
p('C07','Checkpoint then restore reproduces every managed value and pointer relation',
 'Writing a checkpoint and restoring it, into a cleared or a live memory manager, brings back every allocation with the same name, type and dimensions, every scalar, enumerated, boolean, character, string and bit-field value bit-for-bit (floating point to full precision), and every pointer to the same place: null stays null, and pointers into the middle of arrays or to other allocations stay aliased as before. This holds for full and reduced checkpoints and for selected variables.',
 ['inputs','histories'],'for every set of allocations, values (including extremes and special characters) and pointer topologies in the bound',
 'Unit tests compare checkpoint text for single variables; round trips over pointer topologies and extreme values are not enumerated.',
 [S+'MemoryManager/MemoryManager_write_checkpoint.cpp',S+'MemoryManager/MemoryManager_restore.cpp',S+'CheckPointAgent/ClassicCheckPointAgent.cpp',S+'CheckPointAgent/ChkPtParseContext.cpp',S+'CheckPointAgent/input_parser.y',S+'MemoryManager/MemoryManager_alloc_depends.cpp'],
 [('assignment dump and right-hand-side expressions','ClassicCheckPointAgent'),('checkpoint parser','input_parser.y')],
 ['memory before and after','checkpoint text'])
p('C08','STL containers survive checkpoint and restore with identical contents',
 'Every checkpointable STL container (vector, list, deque, set, map, multimap, multiset, pair, stack, queue, priority_queue, array and nestings of them) holding numbers, strings, enums, structures or pointers is restored with the same size, contents, order and sharing, whatever it held before the restore, and checkpointing leaves the live containers unchanged. Temporary storage used for the checkpoint is released afterwards (containers inside structures that are themselves elements of containers are documented as not saved).',
 ['inputs','histories'],'for every container type, size 0..2+, nesting in the bound and previous content',
 'Tests cover one content per container type on an empty destination.',
 ['include/trick/checkpoint_stl.hh',S+'MemoryManager/MemoryManager_restore_stls.cpp',S+'MemoryManager/MemoryManager_get_stl_dependencies.cpp',S+'CheckPointAgent/ClassicCheckPointAgent.cpp'],
 [('checkpoint_stl/restore_stl templates','checkpoint_stl.hh')],
 ['container contents before/after'])
p('C09','Generated type attributes describe the C++ types exactly',
 'For every C++ class the code generator accepts, the attributes it generates give each member its true name, type, size, offset, array dimensions, pointer depth, bit position and width, static-ness, units and input/output permission, including inherited and nested members, and enumerations carry every enumerator with its value. Members it cannot describe are left out rather than described wrongly.',
 ['programs'],'for every class shape in the generated grammar of member types, dimensions, access, inheritance, templates and comment fields',
 'Test sims use the attributes of fixed classes; a wrong offset or dimension for one combination goes unseen.',
 ['trick_source/codegen/Interface_Code_Gen/FieldVisitor.cpp','trick_source/codegen/Interface_Code_Gen/CXXRecordVisitor.cpp','trick_source/codegen/Interface_Code_Gen/PrintAttributes.cpp','trick_source/codegen/Interface_Code_Gen/PrintFileContents10.cpp','trick_source/codegen/Interface_Code_Gen/CommentSaver.cpp'],
 [('AST walk and attribute printing','FieldVisitor/PrintFileContents10')],
 ['compiled ATTRIBUTES tables against compiler offsetof/sizeof'])
p('C10','Restarting from a checkpoint taken at any time continues the run identically',
 'A simulation checkpointed at any time (before or after initialization, in any job, at a commanded time, by safestore, in freeze) and loaded, by the input file, in a freeze or at the end of a frame of the same or a new process, continues with the same job calls, times, values of declared variables, pending freezes, checkpoints and termination as the uninterrupted run, whatever was changed before the load. Checkpointing itself does not change the run.',
 ['crash_points','histories'],'for every checkpoint time on the run and every load time in the bound',
 'Test sims dump and load at one chosen time each and compare a few variables.',
 [S+'CheckPointRestart/CheckPointRestart.cpp',S+'Executive/Executive_checkpoint.cpp',S+'Executive/Executive_restart.cpp',S+'SimObject/JobData.cpp',S+'Executive/Executive_init.cpp'],
 [('checkpoint/preload/restart job queues','CheckPointRestart')],
 ['job and value traces of interrupted and uninterrupted runs'])
p('C11','Input-file assignments store exactly the given value or raise an error',
 'Assigning a number, string, boolean, enum, list or united quantity from the Python input to a simulation variable of any type stores exactly the value the C++ conversion of that input has, after unit conversion into the variable\'s units, reading it back returns that value, and incompatible units, wrong shapes or unassignable types raise an error and leave the variable unchanged.',
 ['inputs'],'for every pair of variable type and shape with input value and unit in the alphabet',
 'SIM_test_ip tries a few values per type; conversion faults sit at boundaries and unit combinations.',
 ['trick_source/trick_swig/swig_double.cpp','trick_source/trick_swig/swig_int.cpp','trick_source/trick_swig/swig_ref.cpp','trick_source/trick_swig/swig_convert_units.cpp','trick_source/trick_swig/swig_ref.i','include/trick/swig/swig_typemaps.i'],
 [('SWIG typemaps and unit conversion','share/trick/swig, trick_swig')],
 ['stored memory and Python read-back'])
p('C12','Events and timed input statements fire at exactly the right times and times only',
 'An active event is evaluated at exactly its start time and each cycle after it; its actions run at exactly the evaluations at which its enabled conditions (all or any, held if so set) hold, in order and subject to their on/off state, and single-shot events stop after firing. Statements scheduled for a time run once, at that time, in the order given; activating, deactivating or removing an event takes effect at once, adding an event or statement from the next top of frame (a statement whose time has passed by then is dropped with a warning), and neither disturbs any other event.',
 ['histories','configurations'],'for every combination of event options, condition truth sequences and control commands in the bound',
 'SIM_events exercises a dozen events with constant conditions.',
 [S+'EventManager/EventManager.cpp',S+'EventManager/EventProcessor.cpp',S+'InputProcessor/IPPythonEvent.cpp',S+'InputProcessor/IPPython.cpp'],
 [('ordered active event list','EventProcessor'),('condition/action evaluation','IPPythonEvent::process')],
 ['trace of condition evaluations and actions with time'])
p('C13','Data recording logs exactly the values at exactly the recording times',
 'Every recording group writes, for each of its recording times while enabled (every cycle, or when a watched variable changed), exactly one row with the time and the values all its variables had then, in time order, whatever the buffering mode, rate mix, buffer size, flush timing or enable/disable history; a variable that does not exist at a recording has an unspecified value in that row. Ring-buffer groups keep exactly the newest rows, step-change recording adds exactly the step row, and file size limits stop recording without corrupting earlier rows.',
 ['configurations','histories','schedules'],'for every group configuration, value/change history, flush point and enable/disable sequence in the bound',
 'SIM_test_dr records a few groups with default buffers; wrap-around, flush and change-detection interact.',
 [S+'DataRecord/DataRecordGroup.cpp',S+'DataRecord/DRBinary.cpp',S+'DataRecord/DRAscii.cpp',S+'DataRecord/DataRecordDispatcher.cpp'],
 [('ring of max_num rows with buffer_num/writer_num','DataRecordGroup::data_record/write_data')],
 ['log files'])
p('C14','Recorded log files read back as exactly what was recorded',
 'A log written in any supported format and read by the data products readers yields the recorded variable names, units and order, the same times, and for every row and type the same value (exactly for binary, to the printed precision for text), from any starting position and after any rewinding; a log cut off by a crash yields its whole rows. Trick binary logs (either byte order, Trick-07 or 10) and CSV logs are covered, read as numbers; MatLab and HDF5 files are not.',
 ['inputs','histories'],'for every variable type, value alphabet, row count and read/rewind sequence in the bound',
 'Reader tests use a few stored files; type/size/endianness combinations are not enumerated.',
 [S+'DataRecord/DRBinary.cpp',S+'DataRecord/DRAscii.cpp','trick_source/data_products/Log/TrickBinary.cpp','trick_source/data_products/Log/Csv.cpp','trick_source/data_products/Log/DataStreamFactory.cpp'],
 [('type codes and record layout','DRBinary/TrickBinary')],
 ['reader output against recorded values'])
p('C15','Variable server sessions answer every command history as documented',
 'After any sequence of client commands (add, remove, clear, exists, send once, send, pause, cycle, units, ascii/binary, validation, copy and write modes, freeze changes, list size, exit) each message a client receives has the documented format and carries, for exactly its registered variables in order, the values and units they had at that sampling, at exactly the times its mode and cycle prescribe. One client\'s commands never affect another\'s session (sessions driven one at a time; threads are the subject of C17).',
 ['histories','inputs'],'for every command sequence up to the depth bound over the command and variable alphabet',
 'Session tests drive mocks through single commands; format and state interactions need sequences.',
 [S+'VariableServer/VariableServerSession.cpp',S+'VariableServer/VariableServerSession_commands.cpp',S+'VariableServer/VariableServerSession_write_data.cpp',S+'VariableServer/VariableServerSession_copy_sim_data.cpp',S+'VariableServer/VariableServerSession_copy_and_write_modes.cpp',S+'VariableServer/VariableReference.cpp'],
 [('session variable list and staged copies','VariableServerSession/VariableReference')],
 ['bytes sent to the client'])
p('C16','Client commands and replies cross the connection intact however it fragments',
 'However the network splits, merges or delays a client\'s bytes, the server executes exactly the complete newline-terminated commands sent, each once and in order, never a partial one, and never touches memory beyond what was received; and however few bytes each send accepts, a connected client receives every reply complete and in order or the connection is reported failed. Datagram and multicast connections deliver each datagram as one message.',
 ['fault_sequences','inputs'],'for every segmentation of the byte stream and every short send, would-block and error answer of the socket calls in the bound',
 'Connection tests use one canned answer per call.',
 [U+'connection_handlers/TCPConnection.cpp',U+'connection_handlers/UDPConnection.cpp',U+'connection_handlers/TCPClientListener.cpp',U+'connection_handlers/MulticastGroup.cpp'],
 [('peek for the last newline then consume','TCPConnection::read')],
 ['messages delivered; bytes accepted by the socket'])
p('C17','Variable server threads: consistent snapshots, no deadlock, on every schedule',
 'On every interleaving of the simulation thread with client threads that change variable lists, sample, send, pause, exit, or are shut down or suspended for a checkpoint, each message carries values sampled together at one copy point, no client command touches simulation data while the simulation has it suspended, and neither side blocks forever.',
 ['schedules'],'for every interleaving of the simulation thread and one or two client threads up to the preemption bound',
 'Thread tests use mocks and OS timing.',
 [S+'VariableServer/VariableServerSessionThread.cpp',S+'VariableServer/VariableServerSessionThread_loop.cpp',S+'VariableServer/VariableServer.cpp',S+'ThreadBase/SysThread.cpp',S+'ThreadBase/ThreadBase.cpp'],
 [('copy mutex and pause/restart handshake','VariableServerSessionThread')],
 ['messages, final thread states'])
p('C18','The socket library transfers exactly the requested bytes under every fault',
 'Reads and writes through a device return the number of bytes moved and move exactly those bytes in order, for every sequence of short transfers, interruptions, would-block answers, errors and peer closes: blocking calls complete fully or report an error, non-blocking and all-or-nothing modes never consume or emit a partial message they report as not transferred, and disconnection is reported once and leaves the device closed.',
 ['fault_sequences'],'for every sequence of socket-call outcomes up to the bound, for each blocking mode and transfer size',
 'TrickComm tests run against a healthy loopback socket.',
 [U+'comm/src/tc_read.c',U+'comm/src/tc_write.c',U+'comm/src/tc_pending.c',U+'comm/src/tc_read_byteswap.c',U+'comm/src/tc_write_byteswap.c',U+'comm/src/tc_disconnect.c'],
 [('transfer loops over send/recv','tc_read/tc_write')],
 ['bytes and return values; device state'])
p('C19','Byte swapping is a per-field involution that preserves every value',
 'Byte-swapping a value, buffer or structured parameter reverses the bytes of each scalar field and nothing else, applying it twice restores the original, and no byte outside the described fields is read or written, for every type, size, array shape and nested structure.',
 ['inputs'],'for every type, size, alignment and dimension in the bound',
 'Existing tests check a few types.',
 [U+'comm/src/trick_byteswap.c',U+'comm/src/trick_bswap_buffer.c',U+'comm/src/trick_bswap_single_parameter.c'],
 [('attribute-driven buffer walk','trick_bswap_buffer')],['buffers after the call'])
p('C20','Container utilities behave as their abstract data types over any history',
 'Linked lists, queues, stacks, search trees, string maps and record arrays supplied to models return, after any sequence of insertions, removals, iterations and searches at any position, exactly what an ideal container would, keep their counts and cursors right, refuse illegal operations without damage, and neither leak nor touch freed storage.',
 ['histories'],'for every operation sequence up to the depth bound',
 'Tests run scripted sequences; cursor and boundary interactions need all sequences.',
 [U+'trick_adt/src/dllist.c',U+'trick_adt/src/lqueue.c',U+'trick_adt/src/lstack.c',U+'trick_adt/src/bst.c',U+'trick_adt/src/MapStrToPtr.c',U+'trick_adt/src/record_array.c'],
 [('head/tail/count maintenance','dllist.c')],['returned values and traversals'])
p('C21','Text encoding conversions are exact for every code point and input',
 'Conversion between ASCII-with-escapes, UTF-8, UTF-16, UTF-32 and wide characters maps every valid Unicode code point to its standard encoding and back unchanged, reports every invalid sequence as an error, and never writes beyond the stated destination size (of at least one unit).',
 ['inputs'],'for every Unicode code point, every short byte/unit sequence and every destination size in the bound',
 'Unit tests try a few characters.',
 [U+'unicode/src/unicode_utils.c',S+'MemoryManager/wcs_ext.c'],[('encode/decode loops','unicode_utils.c')],['output strings and error codes'])
p('C22','Bit-field reads and writes touch exactly their bits',
 'Reading a bit-field member through its attributes returns exactly the value C++ reads, sign-extended when signed, and writing stores the value truncated to the field width and leaves every other bit of memory unchanged, for every position, width and storage size the code generator produces.',
 ['inputs'],'for every start bit, width, storage size and value pattern',
 'Tests cover a few bit positions.',
 [S+'MemoryManager/extract_bitfield.c',S+'MemoryManager/extract_unsigned_bitfield.c',S+'MemoryManager/insert_bitfield.c',S+'MemoryManager/addr_bitfield.c'],
 [('masks and shifts','insert_bitfield.c')],['values and surrounding memory'])
p('C23','Real-time synchronization keeps pace and handles overruns exactly as configured',
 'With real-time on, each frame and freeze frame ends no earlier than its wall-clock boundary at the configured clock ratio and, unless it overran, no later than the wake-up of the sleep timer permits; overruns are counted exactly, consecutive overruns or a single overrun reaching the configured limit freeze or terminate as configured and not before, and enabling, disabling, freezing, unfreezing or changing the clock ratio mid-run keeps simulation time aligned with the clock from that point on.',
 ['histories','fault_sequences'],'for every sequence of frame durations, mode commands and clock settings in the bound',
 'Real-time tests depend on actual timing and try only nominal frames.',
 [S+'RealtimeSync/RealtimeSync.cpp',S+'Clock/Clock.cpp',S+'Timer/ITimer.cpp'],
 [('overrun accounting and spin','RealtimeSync::rt_monitor'),('reference time arithmetic','Clock::clock_reset/adjust_ref_time')],
 ['scripted clock and timer calls; overrun counters; executive commands'])
p('C24','Master and slave simulations stay in lock step through every command and fault',
 'A master and its slaves agree at each frame on the simulation time and mode: a freeze, run, exit or checkpoint command at either side takes effect at the other at the same frame boundary, a slave\'s exit or loss of connection terminates, deactivates or waits for reconnection exactly as configured, and no combination of commands and losses makes either side wait forever for an inactive partner or act on a stale command.',
 ['histories','fault_sequences'],'for every sequence of commands at master and slave and connection faults in the bound',
 'No unit test covers it; sims run one nominal session.',
 [S+'MasterSlave/Master.cpp',S+'MasterSlave/Slave.cpp'],[('per-frame command/time exchange','SlaveInfo::read_slave_status/write_master_status, Slave::end_of_frame')],
 ['commands and times exchanged; executive mode on both sides'])
p('C25','Monte Carlo accounts for every run exactly once whatever the slaves do',
 'Every run of the requested range is dispatched, and resolved exactly once as success or failure with the right exit status, despite slaves that fail, time out, disconnect, answer late or die at any point; runs to retry are retried up to the limit, finished counts add up, no dead or stopped slave is given a run, and the campaign ends as long as some slave still answers or all are disconnected. Every run gets its own values, the same ones on every attempt.',
 ['fault_sequences','histories'],'for every sequence of slave outcomes and master actions in the bound',
 'Unit tests check variable setup and the run queue, not the dispatch protocol.',
 [S+'MonteCarlo/MonteCarlo_master.cpp',S+'MonteCarlo/MonteCarlo_receive_results.cpp',S+'MonteCarlo/MonteCarlo_dispatch_run_to_slave.cpp',S+'MonteCarlo/MonteCarlo_run_queue.cpp',S+'MonteCarlo/MonteCarlo_funcs.cpp'],
 [('slave state machine and run counters','MonteCarlo::dequeue_run/resolve_run/receive_results')],
 ['run resolutions; dispatches per slave'])
p('C26','Every message reaches every enabled subscriber exactly once, intact and in order',
 'A published message reaches each currently subscribed and enabled subscriber exactly once, with its level, text and header intact and in publication order, and no unsubscribed or disabled one, through any history of subscribe, unsubscribe, enable, disable and publish, including subscribers that hand the text to another thread (texts below 20480 characters; for the printing thread at most 399 messages of 4000 characters pending).',
 ['histories','schedules'],'for every history of subscription commands and messages in the bound, and every interleaving of the threaded subscriber',
 'Not covered by unit tests.',
 [S+'Message/MessagePublisher.cpp',S+'Message/MessageSubscriber.cpp',S+'Message/MessageThreadedCout.cpp',S+'Message/MessageCustomManager.cpp',S+'Message/MessageFile.cpp'],
 [('subscriber list walk','MessagePublisher::publish')],['subscriber outputs'])
p('C27','Integration loops advance exactly the integrated state and time they are told to',
 'Every integrator advances its states by exactly the method it is named after, with the method\'s number of passes and stage times, for any way of passing states, step sizes, state count and start time, and changes nothing else. Every loop (plain or multi-rate) is called when each of its cycles is due, for exactly the interval since its last call, calling the jobs of its members class by class in order, however cycles, rates and members are changed between calls (cycles and rates also from inside a call). A dynamic event located by regula falsi on the requested slope happens once, at its root, and the rest of the interval continues from there.',
 ['configurations','inputs','histories'],'for every integrator, step sequence, loop configuration, change and event configuration in the bounds',
 'Tests integrate one or two problems per method with loose tolerances and never change a loop at run time.',
 [S+'Integrator/src/IntegLoopScheduler.cpp',S+'Integrator/src/IntegLoopManager.cpp',S+'Integrator/src/MultiDtIntegLoopScheduler.cpp',S+'Integrator/src/getIntegrator.cpp',S+'Integrator/src/regula_falsi.c','trick_source/er7_utils/integration','trick_source/er7_utils/trick/integration/src/trick_integrator.cc'],
 [('stage tables','er7_utils/integration/*')],['state values, job call trace, integrator time'])
p('C28','Stand-alone integrators are exact to their order and locate events exactly',
 'Every stand-alone integrator advances its independent variable and states by exactly its step, is exact to rounding on problems up to its order, and can undo its last step, in whatever way steps, undo, loads, unloads, copies and assignments are ordered. With a root finder which is re-initialised at each root, as documented, it stops within tolerance at each crossing of the requested slope between two sampled points, never missing or repeating one.',
 ['histories','inputs'],'for every integrator, problem in the alphabet and operation sequence in the bound',
 'Unit tests integrate one problem per class.',
 [U+'SAIntegrator/src/SAIntegrator.cpp',U+'SAIntegrator/src/RootFinder.cpp'],[('Runge-Kutta steps; regula falsi','SAIntegrator.cpp')],['states and independent variable'])
p('C29','Unit conversions agree with each other and with the unit definitions',
 'Converting a value between any two compatible units, old-style or standard spelling, gives the defined physical result, converting back returns the original to rounding, conversion through a third unit agrees, and incompatible or malformed units are always refused.',
 ['inputs'],'for every ordered pair and triple of units in the full unit table',
 'Tests convert a few pairs.',
 [S+'UdUnits/UdUnits.cpp',U+'units/src/map_trick_units_to_udunits.cpp','trick_source/trick_swig/swig_convert_units.cpp'],
 [('unit name mapping','map_trick_units_to_udunits.cpp')],['converted values'])
p('C30','Vector, matrix, quaternion and Euler routines satisfy their defining identities',
 'Every math utility returns the mathematically defined result for every input in its domain: products, inverses and transposes agree with definitions, each Euler sequence converts to a matrix and quaternion and back to the same rotation including at and near singular angles, linear solvers solve the system they are given, and in-place (aliased) use that is documented gives the same result as separate outputs; random generators are not covered.',
 ['inputs'],'for every matrix/vector/angle combination on the value grid and every Euler sequence and method',
 'Tests check one or a few rotations per sequence.',
 [U+'math/src'],[('direct formulas','math/src/*.c')],['numerical results'])
p('C31','Approximate floating-point comparison and interpolation meet their definitions',
 'Two numbers compare as near exactly when their difference or unit-in-last-place distance is within the given tolerance, symmetrically and for all signs, zeros, infinities and NaN; interpolation at a grid point returns the table value, between points the multilinear value, and outside the table is refused. Infinities and NaN are near nothing, and tables have at least two ascending breakpoints per dimension.',
 ['inputs'],'for every pair over the boundary value alphabet and every table shape and query in the bound',
 'Tests check selected pairs and one table.',
 [U+'compareFloatingPoint/src/compareFloatingPoint.cpp',U+'interpolator/src/Interpolator.cpp'],[('ULP distance','compareFloatingPoint.cpp'),('bracketing and weights','Interpolator.cpp')],['boolean and numeric results'])
p('C32','Variable-server binary messages parse back to exactly what was sent',
 'The client-side parser recovers from every well-formed binary message the message type, variable count, names, types, sizes and values exactly, on either byte order and with or without names, and reports every truncated or malformed message as an error without reading beyond it.',
 ['inputs','fault_sequences'],'for every message shape, value and truncation point in the bound',
 'Parser tests use hand-written messages.',
 [U+'var_binary_parser/src/var_binary_parser.cc',S+'VariableServer/VariableReference.cpp'],[('header and record walk','var_binary_parser.cc')],['parsed variables; errors'])
p('C34','Monte Carlo input generation is reproducible, in range and complete',
 'For every campaign definition the generator writes exactly the requested number of run inputs, each assigning every variable once, with values inside the declared bounds and type, taken in order from files or derived from the seed so that the same definition always gives the same inputs, and adding a variable or a run does not change the others\' values.',
 ['configurations','inputs'],'for every combination of variable kinds, options, seeds and run counts in the bound',
 'Sim tests compare one campaign against stored output.',
 [S+'MonteCarloGeneration'],[('per-variable generators','mc_variable_*.cc')],['generated assignments and files'])
p('C35','Shared injected values reach the simulation exactly once and atomically',
 'Each set of real-time injector assignments fired by a client is applied exactly once, completely and in order, at one frame boundary of the simulation, on every interleaving of the client with the simulation, and lists not yet fired have no effect.',
 ['schedules','histories'],'for every interleaving and command history in the bound',
 'Only a sim test with nominal timing covers it.',
 [S+'RealtimeInjector/RtiStager.cpp',S+'RealtimeInjector/RtiExec.cpp',S+'RealtimeInjector/RtiList.cpp'],[('staged list hand-over','RtiStager::fire, RtiExec::Exec')],['variable values per frame'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for x in P: jsonschema.validate(x,sch)
    print('valid',len(P))
except ImportError: print(len(P))
