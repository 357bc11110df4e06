"""The properties.  gen.py writes properties.jsonl and MANIFEST.json from this
file and checks.py."""
P = []
NA = []
def prop(id, title, statement, over, q, why, files, mech, observe, state=(), note='', **kw):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
                  anchors=dict(files=['preload-src/src/' + f for f in files],
                               mechanism=[dict(name=a, where='preload-src/src/' + b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where='preload-src/src/' + c) for a, b, c in state],
                               observe_at=observe, hook_needed=None), note=note))

prop('C01', 'The prefetch set stays within the documented memory budget and uses it',
     'In every prediction cycle the maps handed to the prefetcher add up to at most the budget of the documentation: the configured percentages of total and free memory (at least zero), plus the configured percentage of cached memory, with percentages outside [-100,100] clamped, and never overflowing. Prefetching stops only at a map that does not fit: the most needed map left out is larger than the remaining budget.',
     ['inputs', 'configurations'], 'every configuration of the three percentages, every memory situation, every set of candidate programs, their bids, running states and map sizes',
     'No test runs the prediction with a real configuration; arithmetic extremes (large memories, negative and out-of-range percentages) are never sampled.',
     ['algorithm/prophet.c', 'config/confkeys.h'], [('preload_prophet_readahead', 'algorithm/prophet.c'), ('clamp_percent, kb', 'algorithm/prophet.c')], ['the set of maps passed to preload_readahead'],
     [('memstat', 'memory situation of the cycle', 'handling/state.h')])
prop('C02', 'Prefetched maps are the needed ones, most needed first, never only-running ones',
     'A map is prefetched only if the bids of the programs that map it are in its favour and at least one of these programs is not running now; its need is the sum over those programs. No map is requested while a strictly more needed one is left out; a map is requested at most once.',
     ['inputs'], 'every assignment of bids, running states, sharing between programs and sizes',
     'Ordering and selection depend on real-valued bids and sharing patterns; the tests only check a single map with a fixed bid.',
     ['algorithm/prophet.c'], [('exe_bid/map_bid, map_prob_compare', 'algorithm/prophet.c')], ['order and content of the array passed to preload_readahead'])
prop('C03', 'Prefetch requests cover exactly the selected bytes in the configured order',
     'For the selected maps the read requests together cover every byte of every selected map and no byte outside, whatever the overlaps, containments and adjacency of maps of the same file. Requests are issued in the configured order: need order, path, inode, or disk block (inode where the block is unknown).',
     ['inputs', 'configurations'], 'every set of maps (paths, offsets, lengths), every inode/block answer of the file system, all four strategies',
     'No test covers the readahead module at all; containment and gap cases among merged requests are rare inputs.',
     ['handling/readahead.c'], [('merge loop of preload_readahead', 'handling/readahead.c'), ('map_path_compare, map_block_compare, set_block', 'handling/readahead.c')], ['arguments of readahead(2)/mmap fallback'])
prop('C04', 'Parallel prefetching keeps the process limit and loses no request',
     'With parallel prefetching, every request of the sequential run is handed to one child process of its own, and failing to create a child loses no other request. There are never more children than the configured maximum, and all of them are reaped before the cycle ends; children never return into the daemon.',
     ['schedules', 'fault_sequences', 'configurations'], 'every failure pattern of process creation and every process maximum',
     'Needs process creation failures and limits; no test forks.',
     ['handling/readahead.c'], [('process_file, wait_for_children', 'handling/readahead.c')], ['fork, wait, exit and readahead calls'])
prop('C05', 'Prefetching survives file system errors without leaks',
     'Whatever combination of open, stat, block lookup, readahead, mapping or advice calls fails during a prefetch, every opened descriptor is closed exactly once, every fallback mapping is removed and covers the requested range, and the files without errors are still prefetched.',
     ['fault_sequences'], 'every pattern of failures of the system calls in a prefetch cycle',
     'Tests inject no faults and never reach the prefetch code.',
     ['handling/readahead.c'], [('process_file', 'handling/readahead.c'), ('set_block, get_block', 'handling/readahead.c')], ['system calls and their results'])
prop('C07', 'Exactly the wanted running programs are observed',
     "A scan of the process table reports every process other than the daemon itself whose executable is readable, not deleted and accepted by the configured program prefixes, once, under its own path without the prelink suffix; everything else is skipped. A process that vanishes or is unreadable while being scanned affects no other.",
     ['inputs', 'configurations', 'schedules'], 'every directory entry name, link target, link error, own process id and prefix list within the bounds',
     'Tests do not read a process table; entries that look like numbers, self entries, truncated links and prelink/deleted suffixes are rare inputs.',
     ['monitoring/proc.c'], [('proc_foreach', 'monitoring/proc.c'), ('sanitize_file, accept_file, all_digits', 'monitoring/proc.c')], ['callback arguments'])
prop('C08', 'Only wanted file mappings are learned, under their real path and range',
     'From the mappings of a process, a record is made for exactly the lines that map a file with an absolute, undeleted path accepted by the configured map prefixes (prelink suffix removed, spaces kept); it has the line\'s file offset and size.',
     ['inputs', 'configurations'], 'every text of a mapping line (fields and path) and every prefix list within the bounds',
     'The tests parse no mapping text.',
     ['monitoring/proc.c'], [('proc_get_maps', 'monitoring/proc.c'), ('sanitize_file, accept_file', 'monitoring/proc.c')], ['returned records, size'])
prop('C09', 'The size, records and shared maps of a process agree',
     'The size reported for a process is the sum of its accepted mappings; a record is made for each; a mapping already known is shared instead of duplicated, one reference is held per record, and giving the records back restores the previous references and forgets maps without users.',
     ['inputs', 'histories'], 'every sequence of accepted and rejected mapping lines within the bounds, equal or not to a known map',
     'The tests never connect the parser, the table of maps and reference counting.',
     ['monitoring/proc.c', 'handling/map.c'], [('proc_get_maps', 'monitoring/proc.c'), ('preload_map_ref/unref', 'handling/map.c')], ['returned size, records and map table'])
prop('C14', 'Pair statistics count every change of state once and average the stays',
     'Whenever one or both programs of a known pair start or stop, exactly one departure from the old joint state and one transition to the new one are counted, and the mean time spent in the old state becomes the average of all its observed stays. A second notification within the same moment changes nothing, and no other count or mean is touched.',
     ['inputs', 'histories'], 'every prior count, mean, state, time and pair of running states (one step from an arbitrary pre-state, so histories of any length)',
     'The tests make a handful of transitions from fresh pairs; the property is about every prior history.',
     ['algorithm/markov.c'], [('preload_markov_state_changed, markov_compute_state', 'algorithm/markov.c')], ['weight, time_to_leave, state and change_timestamp of a pair'])
prop('C15', 'The correlation of two programs is a correlation',
     'The correlation computed from the recorded running times of two programs lies in [-1,1] and has the sign of their covariance: zero if one of them always or never ran, one if they always ran together, minus one if always exactly one of them ran. Recorded times that contradict each other (from a damaged state file) neither end the daemon nor give a value outside the range.',
     ['inputs'], 'every combination of total, single and joint running times within the bounds',
     'The tests try a few round numbers.',
     ['algorithm/markov.c'], [('preload_markov_correlation', 'algorithm/markov.c')], ['returned value'])
prop('C18', 'The sequence model is the sequences of launches',
     'The learned prediction tree holds exactly the sequences of program launches that happened: the runs of up to five consecutive launches and every pair of successive launches, each counted as often as it happened; launches before the first or of no program add nothing. Node numbers of the saved tree are unique and parents are written before their children.',
     ['histories', 'inputs'], 'every sequence of launches within the bounds',
     'The tests feed one or two short sequences; the context reset after five launches, and the interplay with the pair statistics, need long ones.',
     ['algorithm/vomm.c'], [('vomm_update', 'algorithm/vomm.c'), ('vomm_export_state', 'algorithm/vomm.c')], ['nodes passed to the writer of vomm_export_state'],
     [('vomm_system', 'prediction tree, context and history', 'algorithm/vomm.c')])
prop('C19', 'Sequence predictions bid the documented probabilities',
     'A sequence prediction adds to the bid of every predicted program log(1 - min(0.99, confidence)), confidence being its share of the successors of the current context (boosted by 1.1) or of a recent launch, and log(1 - (0.1 + 0.4*share)) for its share of all pairs. Bids are finite and never reduce a need, and a running program gets none.',
     ['inputs', 'histories'], 'every sequence of launches, every set of running programs and every loaded tree within the bounds',
     'The tests check the sign of a bid after one sequence; sure successors, zero counts and running programs are not sampled.',
     ['algorithm/vomm.c'], [('vomm_predict', 'algorithm/vomm.c')], ['lnprob of every program'])
prop('C20', 'A removed program is forgotten everywhere',
     'When the cleanup removes a program that no longer exists on disk, no part of the daemon refers to it any more: predictions, further learning, saving and shutdown work on the remaining programs only, and exactly the programs that do not exist are removed.',
     ['histories'], 'every sequence of launches and deletions within the bounds',
     'The tests remove programs only from models without learned sequences.',
     ['handling/exe.c', 'algorithm/vomm.c', 'handling/model_utils.c'], [('preload_state_unregister_exe', 'handling/exe.c'), ('preload_cleanup_invalid_entries', 'handling/model_utils.c')], ['memory accesses, exported nodes, program table'])
prop('C27', 'Running status and accounting follow the process table',
     'After every scan a program counts as running, and is listed once, exactly if it is in the process table. The update of the model examines exactly the unknown running programs: those of at least the minimum size become known (with a chain to every other known program), smaller ones are set aside. Running time, joint running time and transitions grow by exactly the elapsed time and the changes that happened; every start of a program is learned once.',
     ['histories', 'inputs'], 'every set of running programs in every cycle, every size, minimum size, prior count and time within the bounds',
     'The tests do not run scan and update together; restarts between cycles, several processes of a program and programs that end while examined are histories.',
     ['monitoring/spy.c', 'handling/exe.c', 'algorithm/markov.c'], [('preload_spy_scan', 'monitoring/spy.c'), ('preload_spy_update_model', 'monitoring/spy.c')], ['state after preload_spy_scan and preload_spy_update_model'],
     [('state', 'the daemon model', 'handling/state.h')])
prop('C21', 'What is saved is what is loaded',
     'Saving the model and loading it in a new daemon gives the same model: the same clock, programs, maps (shared ones shared again), use probabilities, pair statistics and learned sequences with the same values; program sizes and pair states are recomputed, and exactly the programs running now are listed as running, once each. Programs set aside as too small get another chance.',
     ['inputs', 'histories'], 'every model within the bounds and every set of running programs at load',
     'The tests check that a file appears; every field of every record type, shared maps, and the sequence tree need arbitrary models.',
     ['handling/state_io.c', 'handling/state.c', 'algorithm/vomm.c'], [('write_state/read_state and the record readers', 'handling/state_io.c'), ('preload_state_save, preload_state_load', 'handling/state.c'), ('vomm_hydrate', 'algorithm/vomm.c')], ['model after preload_state_load'])
prop('C22', 'A failed save never costs the saved model',
     'Saving writes a temporary file and replaces the state file by it in one step only after it was written completely. Whatever call fails during a save, the state file is the old or the complete new one, everything is closed, no file is left that prevents a later save, and a save that failed is repeated at the next occasion. A file somebody placed at the temporary name is not written through. Nothing is written when nothing changed.',
     ['fault_sequences', 'crash_points'], 'a failure of any one call (open, each write, flush, rename, unlink) during a save, with or without a stale temporary file',
     'Tests inject no faults.',
     ['handling/state_io.c', 'handling/state.c'], [('write_state, save path', 'handling/state_io.c'), ('preload_state_save', 'handling/state.c')], ['file system calls'])
prop('C25', 'The daemon cycle does each step at the documented time',
     'The daemon alternates scan and prediction at the start of a cycle and the model update half a cycle later, so that a whole cycle lasts the configured time; on battery it neither scans nor predicts and slows down at least twofold. The model clock advances by exactly the time waited, every scan is followed by one update, a changed model is saved at the configured interval (again after a failure), disabled parts never run, and every timer event schedules exactly one successor.',
     ['histories', 'schedules', 'configurations'], 'every sequence of timer events, battery states and configurations within the bounds',
     'The tests run no cycle; drift, odd cycle lengths, battery changes and reloads between the two halves are histories.',
     ['handling/state.c'], [('preload_state_tick, preload_state_tick2, preload_state_autosave', 'handling/state.c')], ['calls of the parts, timers, state->time'])
prop('C28', 'Time since boot includes suspend where the kernel can tell',
     'The time helpers report the seconds and milliseconds since boot including suspend on kernels that offer it, and of the monotonic clock otherwise, without overflow, and -1 if the clock cannot be read.',
     ['inputs', 'fault_sequences'], 'every clock value and failure and every order of calls within the bounds',
     'The tests see the clock of one machine.',
     ['utils/time_utils.c'], [('preload_get_boottime, preload_get_boottime_ms, preload_check_boottime_support', 'utils/time_utils.c')], ['return values'])
prop('C29', 'Pages are given back exactly as asked',
     'Evacuating pages advises the kernel on exactly the given range (of memory or of a file), lazily exactly if wanted and the kernel can, and passes the answer of the kernel on. Whether the kernel can is probed once, on a page of its own that is given back; no memory or a failing probe means it cannot.',
     ['inputs', 'fault_sequences'], 'every range, every order of calls and every answer of the kernel within the bounds',
     'No test calls the advice helpers.',
     ['handling/madvise_utils.c'], [('preload_evacuate_pages, preload_evacuate_file_pages, preload_check_madv_free_support', 'handling/madvise_utils.c')], ['madvise arguments, return values'])
prop('C30', 'Running on battery is detected whenever a battery is discharging',
     'The daemon considers itself on battery exactly when at least one of the batteries of the system reports that it is discharging, whatever white space surrounds the report and whichever batteries are absent or unreadable.',
     ['inputs', 'fault_sequences'], 'every set of batteries and every status text within the bounds',
     'The tests never present a battery.',
     ['utils/power.c'], [('preload_on_battery', 'utils/power.c')], ['return value'])
prop('C31', 'Messages are logged by level, to the configured log',
     'A message is written exactly if its level is within the configured verbosity; a fatal one is noted and ends the daemon with a failure. Opening the log at the start redirects input, output and errors (appending, leaving no descriptor open) and fails the start if it cannot; reopening redirects the output again or keeps the old log.',
     ['inputs', 'fault_sequences'], 'every level, verbosity and failure within the bounds',
     'The tests do not look at logged output.',
     ['utils/log.c'], [('preload_log_init, preload_log_reopen, preload_log', 'utils/log.c')], ['written messages, descriptors'])
prop('C10', 'Memory statistics are what the kernel reports',
     'The memory statistics are those of the kernel in kilobytes, whatever the order of the lines and the kernel version; available memory is the estimate of the kernel where it gives one and free plus cached plus buffers otherwise, and paging counters are converted to kilobytes by the page size. Unreadable or partial files give zeros for what is missing, and values that do not fit are limited, never wrapped.',
     ['inputs', 'fault_sequences'], 'every value of every line within the bounds, in several layouts of the files',
     'The tests read the memory statistics of one machine once; terabyte machines and other kernels never occur.',
     ['monitoring/proc.c'], [('proc_get_memstat', 'monitoring/proc.c')], ['preload_memory_t'])
prop('C11', 'Two maps are the same exactly if path, offset and length agree',
     'Maps are equal exactly if their path, offset and length agree, equal maps have equal hashes, whichever copies of the path they hold, and looking a map up by path and range finds exactly that map.',
     ['inputs'], 'every two maps within the bounds',
     'The tests compare a few hand-picked maps; a hash or comparison that forgets a field merges distinct maps only for particular pairs.',
     ['handling/map.c'], [('preload_map_hash, preload_map_equal', 'handling/map.c')], ['return values'])
prop('C13', 'Programs, maps and pairs stay consistent while programs come and go',
     'After every history of programs being registered and unregistered with shared maps: exactly the registered programs are found, each two of them share exactly one pair, listed with both, no pair or list refers to a program that is gone; every map is known and listed once exactly while some program uses it and is held once by each use; the size of a program is that of its maps; numbers are unique. Visiting the pairs visits each once, and everything can be released at the end.',
     ['histories', 'inputs'], 'every history of arrivals and departures within the bounds',
     'The tests register and free a few programs in one order; dangling references appear only after particular histories.',
     ['handling/state.c', 'handling/exe.c', 'handling/map.c', 'algorithm/markov.c'], [('preload_state_register_exe, preload_state_unregister_exe, preload_exe_new, preload_exemap_new, preload_map_ref, preload_map_unref, preload_markov_new, preload_markov_free', 'handling/')], ['state->exes, state->maps, state->maps_arr, markovs'])
prop('C17', 'Bids are those of the documented pair model',
     'With the Markov algorithm the bid of a program that is not running is the logarithm of the chance that it is not needed: the product over its pairs of one minus correlation (its magnitude, if used) times the chance that the pair changes its state within one and a half cycles (exponential in the mean stay of the current state) times the share of the departures from the current state towards states in which the program runs. Pairs without evidence do not count, a running program gets no bid, bids of earlier cycles and the counts of other states do not matter, and no bid speaks against a program.',
     ['inputs', 'histories'], 'every set of running programs, everything irrelevant arbitrary, the relevant statistics from stated tuples',
     'The tests check single values of one pair; independence of irrelevant counters and earlier bids is a relation over all models.',
     ['algorithm/prophet.c', 'algorithm/markov.c'], [('preload_prophet_predict, markov_bid_in_exe', 'algorithm/prophet.c')], ['lnprob of programs'])
prop('C24', 'The configuration in force is the documented one',
     'Loading a configuration gives every documented key the value of the file where it is valid and the documented default or limit otherwise, keeps the previous configuration when the file cannot be loaded on a reload and stops at the start, whichever other keys are present; lists and strings are those of the file.',
     ['inputs', 'fault_sequences', 'histories'], 'every key missing, invalid or with any value, for a load and a reload',
     'The tests load two or three configuration files; a key that is ignored, or a stale value after a reload, needs a particular key and history.',
     ['config/conf.c', 'config/confkeys.h'], [('preload_conf_load', 'config/conf.c')], ['conf'])
