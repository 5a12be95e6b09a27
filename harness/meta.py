"""Per check: how cases are made, the least the monitors must have observed, what is assumed, and which build is used."""
ARM = 'harness/arm.py (decoder and executor of the subset, written from the Armv7-M manual, not from the code) is right'
PY = 'PyPy 7.3 / Python 3.9, as the test suite uses; Python 2 is not run'
SAMPLED = 'operand values, states and histories are sampled (corner values plus random ones), not enumerated'
CHECKS = {}


def C(id, technique, rule, floors, note, assumptions=(ARM, PY, SAMPLED), built=False, exhaustive=None):
    CHECKS[id] = dict(rule=rule, floors=floors, assumptions=list(assumptions), built=built, exhaustive=exhaustive,
                      technique=technique, note=note)


MACHINE = ('Non-trivial: the encoding decodes and is executed from a random state (registers from corner and random values, '
           'coinciding registers, both stack pointers, all modes) on one of two delegates, a sparse full-address-space memory '
           'that logs each access and the repository\'s mock with regions; distinct by (encoding, Rn, Rm, flags).')

C('C01', 'runtime monitor: decode oracle over all halfwords and sampled words, plus history/truncation replays',
  'All 65536 first halfwords; 32-bit words from per-encoding templates with random fields, near-misses by bit flips and '
  'uniformly random words. Each decoded object is read back through its operands, text, size and effects and compared with '
  'the model decoder. Distinct by (bytes, truncation).',
  {'decoded_16': 40000, 'decoded_32': 200000, 'undefined_rejected': 80000, 'truncations': 6000, 'redecoded': 40000, 'relatives': 30000, 'hot_encodings': 32, 'swept_again': 30000},
  'Every 16-bit encoding is covered completely; 32-bit encodings are sampled densely per template. The model decoder is trusted.',
  exhaustive='all 16-bit halfwords in every run')
C('C02', 'runtime monitor: exception oracle over decode, format and execute of arbitrary bytes in arbitrary states',
  'Byte strings of every length 0-8 and template-filled words, decoded, formatted (with and without CPU) and executed on '
  'sparse and on partly mapped memory. Any exception but the two documented decode rejections is a violation. Distinct by bytes.',
  {'decoded': 70000, 'executed': 70000, 'rejected_undefined': 12000, 'rejected_unpredictable': 2000, 'streams': 2000},
  'No crash on any of the sampled executions; all mnemonics are reached in every run.')
C('C03', 'runtime monitor: rejection oracle over the complete UNPREDICTABLE field space',
  'Each encoding with documented UNPREDICTABLE cases, its deciding fields enumerated and the rest random; legal neighbours '
  'included. Distinct by encoding.',
  {'legal': 30000, 'undefined': 15000, 'unpredictable': 40000},
  'The enumerated fields are complete, the others sampled.')
C('C04', 'runtime monitor: tiling oracle over disassembly streams',
  'Byte strings mixing valid, undefined, unpredictable and truncated encodings, disassembled whole, lazily and interleaved '
  'with other streams; the output is compared with position-by-position decoding by the model. Distinct by bytes.',
  {'streams_over_64_KiB': 1, 'instructions': 100000, 'ended_undefined': 4000, 'ended_short_tail': 6000, 'ended_complete': 5000, 'interleaved_streams': 8000},
  'Streams are sampled; every kind of ending is seen thousands of times.')
C('C05', 'runtime monitor: lock-step differential execution against an architectural model (destination values)',
  MACHINE, {'steps': 90000, 'coinciding_registers': 25000, 'sp_or_pc_destination': 3000},
  'Differential against the model; one known finding (PC read as an operand) is recognised by its exact whole effect.')
C('C06', 'runtime monitor: lock-step differential execution against an architectural model (flags)',
  MACHINE, {'steps': 110000, 'flag_setting': 60000, 'flag_preserving': 40000, 'suppressed_in_it_block': 15000},
  'Flags before are random, so flags that must be kept are observed too; every 16-bit flag-setting encoding runs each time.',
  exhaustive='every 16-bit flag-setting encoding in every run')
C('C07', 'runtime monitor: lock-step differential execution and memory-access log (loads and stores)',
  MACHINE, {'steps': 70000, 'loads': 45000, 'stores': 22000, 'loads_to_pc': 120, 'destination_is_base_or_index': 10000},
  'Addresses include unaligned, wrapping, region-crossing and unmapped ones.')
C('C08', 'runtime monitor: lock-step differential execution, and a shadow stack over push/pop nestings',
  MACHINE + ' Nestings: random push/pop histories checked against a shadow stack.',
  {'steps': 30000, 'push': 8000, 'pop': 8000, 'ldm': 4000, 'stm': 4000, 'pushes': 15000, 'pops_matched': 10000},
  'All 16-bit register lists appear; 32-bit lists are sampled.')
C('C09', 'runtime monitor: next-PC oracle in lock-step execution',
  MACHINE, {'steps': 90000, 'transfers': 18000, 'fall_through': 60000, 'condition_cases': 1500},
  'All 14 conditions in all 16 flag states; one known finding (PC read as an operand) is recognised by its exact effect.',
  exhaustive='14 conditions x 16 flag states, and every 16-bit encoding, in every run')
C('C10', 'runtime monitor: frame-condition and exactly-once monitor over the delegate event log',
  MACHINE, {'steps': 80000, 'loading': 25000, 'storing': 14000, 'no_memory': 30000, 'delegate_events': 70000, 'special_register_writers': 4000},
  'The whole register file, all memory and the full access log are compared after each instruction.')
C('C11', 'runtime monitor: lock-step differential execution over modes, privilege and special registers',
  MACHINE, {'steps': 60000, 'mrs': 15000, 'msr': 25000, 'cps': 3000, 'privileged': 18000, 'unprivileged': 9000, 'barrier': 4000},
  'Special register x operand x mask is complete, values are sampled.',
  exhaustive='special register x register x mask combinations of mrs and msr, in every run')
C('C12', 'runtime monitor: constancy monitor over histories of decode, format and execute on shared objects',
  'Random histories over a pool of live instruction objects on two CPUs; texts and effects are compared with those at decode '
  'and, when an effect is wrong, with a history-free process to tell history dependence from a wrong instruction. Distinct by '
  '(operation, encoding, executions so far).',
  {'decodes': 12000, 'executions': 20000, 're_executions': 12000, 'formats': 10000, 'worn_objects': 100},
  'Histories up to 80 operations; some objects are executed a thousand times and more.')
C('C13', 'runtime monitor: step-by-step lock-step of whole programs against an architectural model',
  'Generated structured programs (loops, calls, recursion, tables, computed branches, byte copying) and random code, run by '
  'fetch, decode, execute from simulated memory. Distinct by (PC, bytes, r0, flags).',
  {'steps': 250000, 'structured_programs': 1000, 'structured_halted': 1000, 'random_programs': 2500, 'transfers': 40000,
   'reused_objects': 60000, 'whole_runs': 150, 'long_lists': 20, 'long_list_steps': 100000},
  'Programs up to 1500 steps; every structured program must halt.')
C('C14', 'runtime monitor: disassembly text parsed back and compared with the encoding',
  'All 16-bit encodings and sampled 32-bit ones at random addresses; the text is parsed into operands and compared with the '
  'model\'s, and texts that are equal must come from instructions the model holds equal. Distinct by (encoding, address class).',
  {'texts': 300000, 'op_imm': 30000, 'op_mem': 60000, 'op_list': 60000, 'op_label': 15000, 'op_sysreg': 3000, 'op_shift': 20000, 'register_lists': 30000},
  'The parser accepts any spacing and letter case; only meaning is judged.', exhaustive='all 16-bit encodings, and all register lists of ldm.w, stm.w, push.w and pop.w, in every run')
C('C15', 'runtime monitor: printed label against the PC or register after executing the same object',
  'Branches and PC-relative address instructions at random addresses including both ends of the address space. Distinct by '
  '(encoding, address).',
  {'compared_b': 5000, 'compared_bcond': 60000, 'compared_bl': 15000, 'compared_adr': 35000, 'moved': 30000},
  'The printed absolute and relative operands are both compared with the address execution reaches.')
BITS = ('Python integers and a list-of-bits shadow model (harness/bits.py) are the oracle', PY, SAMPLED)
C('C16', 'runtime monitor: arithmetic against integers modulo 2^width',
  'Widths to 1100, corner and random values, every operator in normal, reflected and in-place form with bit strings, integers '
  'and literals. Distinct by (operator, form, operands).',
  {'normal': 120000, 'inplace': 70000, 'reflected': 35000, 'constructed': 30000},
  'Small widths are covered densely, larger ones sampled.', BITS)
C('C17', 'runtime monitor: bit-sequence shadow model', 'Each operation on random strings with random (negative, stepped, '
  'out-of-range) indices and slices, compared with a list of bits; round trips through bytes and text. Distinct by (operation, arguments).',
  {'index': 12000, 'slice': 25000, 'set_bit': 12000, 'set_slice': 9000, 'concat': 12000, 'split': 12000, 'extend': 12000,
   'convert': 12000, 'count': 12000, 'reverse': 12000}, 'Widths to 1100 bits.', BITS)
C('C18', 'runtime monitor: aliasing and frame monitor over operation histories on a pool of live bit strings',
  'Random operation sequences over a pool of bit strings with shadow values; after every operation the whole pool is compared '
  'with the shadows. Distinct by history.',
  {'objects_checked': 1000000, 'foreign_rejected': 8000, 'ibinary': 8000, 'iconcat': 8000, 'setslice': 8000, 'tilde': 8000, 'refusals': 8000},
  'Histories up to a few dozen operations.', BITS)
C('C19', 'runtime monitor: order-axiom checker over triples and mixed operands',
  'Triples of bit strings checked for totality, antisymmetry, transitivity, hash agreement and sorting; integers, text and '
  'foreign objects against the stated meaning. Distinct by operands.',
  {'triples': 35000, 'integers': 25000, 'integers_negative': 6000, 'texts': 30000, 'foreign': 30000}, 'Widths to 1100 bits.', BITS)
C('C20', 'runtime monitor: pseudo-code oracle in integers',
  'Each helper over widths 2-64, amounts 0, below, at and beyond the width, both carries; all modified immediates and '
  'immediate shifts. Distinct by arguments.',
  {'shifts': 20000, 'shift_beyond': 8000, 'shift_at_width': 1500, 'shift_zero': 2000, 'additions': 20000, 'carries': 8000,
   'overflows': 2500, 'modified_immediates': 8000, 'immediate_shifts': 128, 'aligned': 20000},
  'Modified immediates and immediate-shift decoding are complete.', exhaustive='all modified immediates with both carries, all '
  'immediate shifts')
C('C21', 'runtime monitor: linear-scan oracle against decoder trees built from random encodings',
  'Random specs in random spellings; random tables of overlapping encodings with declining handlers registered in random order '
  'in a fresh decoder, probed with matching and random words. Distinct by (table, word).',
  {'specs': 30000, 'malformed_specs': 3000, 'wrong_width_specs': 4000, 'tables': 1500, 'selected': 80000, 'overlapping': 15000, 'fell_back': 3000, 'all_declined': 25000,
   'undefined': 50000}, 'Tables of up to a dozen encodings.', ('a linear scan by specificity defines the selection', PY, SAMPLED))
C('C22', 'runtime monitor: byte-map shadow memory over access histories',
  'Histories of byte, halfword, word and block accesses around region ends, with regions added midway, caller buffers '
  'scribbled on afterwards and the whole memory compared. Distinct by history.',
  {'histories': 20000, 'mapped': 120000, 'crossing': 45000, 'unmapped': 40000, 'blocks': 20000, 'clipped_blocks': 20000,
   'block_writes': 20000, 'clipped_block_writes': 20000, 'scribbles': 30000, 'sustained_accesses': 300000},
  'Up to 24 regions of up to a few hundred bytes (one of 64 KiB and more per run); histories up to 12000 accesses.',
  ('a dictionary of bytes per region is the oracle', PY, SAMPLED))
C('C23', 'runtime monitor: shadow register file over access histories under all names',
  'Histories of reads and writes by index, name, alias, property, flag and float accessor; all registers are compared under '
  'all names as they go. Distinct by history.',
  {'histories': 12000, 'reads': 100000, 'writes_index': 35000, 'writes_name': 35000, 'writes_prop': 25000, 'writes_s': 18000,
   'flag_writes': 30000, 'rejected': 10000, 'unknown_names': 6000, 'full_checks': 80000},
  'Histories up to a few dozen accesses, some of 4000.',
  ('a shadow register file with the stated restrictions is the oracle', PY, SAMPLED))
C('C24', 'runtime monitor: round trips and integer oracle', 'Lists, scalars, floats (including NaN payloads, infinities and '
  'denormals) and bit fields at all positions. Distinct by arguments.',
  {'lists': 30000, 'scalars': 30000, 'floats': 30000, 'fields': 30000}, 'Fields of a word: positions and widths complete over a run.',
  ('struct and integer arithmetic are the oracle', PY, SAMPLED))
CON = ('sessions are driven through main() with stdin and stdout replaced, on the package setup.py builds (2to3)', PY, SAMPLED)
C('C25', 'runtime monitor: shadow machine over interactive console sessions',
  'Sessions of up to 40 valid commands (a few of 1200) in random spellings, parsed back and compared with a shadow register file and memory, '
  'ending with a complete dump. Distinct by session.',
  {'commands': 30000, 'reg': 4000, 'wreg': 4000, 'read8': 1500, 'read16': 1500, 'read32': 1500, 'write8': 1500, 'write16': 1500,
   'write32': 1500, 'expressions': 1000, 'final_checks': 1200}, 'Output is parsed leniently; only names, labels and values are judged.',
  CON, built=True)
C('C26', 'runtime monitor: console sessions against a directly driven CPU',
  'Sessions of step, disasm, reset and writes to code, vector table and registers; printed lines and all state are compared with '
  'a second CPU driven through decode and execute. Distinct by session.',
  {'sessions': 800, 'sessions_without_binary': 80, 'steps': 12000, 'steps_undecodable': 500, 'steps_unpredictable': 150, 'steps_no_code': 500, 'code_at_end': 300, 'disasm': 4000, 'disasm_lines': 12000,
   'disasm_marked': 1200, 'disasm_long': 50, 'resets': 2000, 'vector_tables': 1200, 'stores_checked': 700},
  'Instruction semantics are taken from the code itself (they are decided by C05-C11).', CON, built=True)
C('C27', 'runtime monitor: survival and state-frame monitor over hostile console sessions',
  'Malformed, random and valid lines; the session must survive, malformed lines must be reported and leave all registers and '
  'memory as they were; joined and repeated lines are compared with separate ones; some sessions run as a process of their own. '
  'Distinct by line.',
  {'sessions': 800, 'malformed_lines': 8000, 'other_lines': 5000, 'equivalences': 1600, 'repeats': 2000, 'interrupts': 300, 'crowded_lines': 50, 'processes': 16, 'undecodable_lines': 60},
  'Malformed lines are drawn from about 35 shapes with random parts; interrupts come at prompts and inside expressions.', CON, built=True)
C('C28', 'runtime monitor: interference checker over interleaved and multi-threaded CPUs, delegate boundary monitor',
  'The same action lists run alone and interleaved with others, in one thread and in several with a switch interval of microseconds '
  'and yields injected at delegate calls; delegates check each argument and return odd integer types. Distinct by interleaving.',
  {'interleaved_runs': 800, 'actions': 30000, 'delegate_switches': 5000, 'boundary_calls': 30000, 'thread_runs': 120,
   'thread_switches': 20000, 'nested_runs': 400, 'nested_steps': 4000, 'rebuilds_meanwhile': 60, 'distinct_thread_interleavings': 110},
  'Thread interleavings are those the scheduler and injected yields produce.', (PY, 'PyPy has a global lock, so races show only '
  'between bytecodes', SAMPLED))
C('C29', 'runtime monitor: help, alias-equivalence, logging-level and start-up oracles over console sessions',
  'help is parsed and each listed name issued; sessions are replayed with every command respelled through its aliases and letter '
  'case and the transcripts compared; logging thresholds are read through a logger after each line; images of many lengths are '
  'started and read back; start-up lines that must be refused or only inform. Distinct by line, argument list and image length.',
  {'helps': 240, 'listed_names': 4000, 'register_commands': 2000, 'respelled_sessions': 1600, 'respelled_lines': 6000,
   'levels': 3000, 'images': 400, 'image_reads': 2000, 'ram_reads': 800, 'starts_refused': 250, 'starts_informational': 100},
  'The documented command groups are listed in the check; one known finding (status is listed but does not exist).', CON, built=True)

C('C30', 'runtime monitor: shown state compared with the state read back, before and after showing it',
  'CPUs of several kinds in random states (all stack-pointer banks and modes, delegates swapped in between) are dumped and '
  'represented and the text parsed back; instructions likewise; listings of random decoder tables are compared with what was '
  'registered, the shipped listing with what it decodes. State, access log and later decodes must be as before. Distinct by state, '
  'encoding and table.',
  {'dumps': 8000, 'reprs': 12000, 'instructions': 9000, 'listings': 2500, 'listed': 20000, 'shipped_entries_used': 40000,
   'delegates_swapped': 1500}, 'Text is parsed leniently: names and hexadecimal values are judged, not layout.', (PY, SAMPLED))

C('C31', 'runtime monitor: text, selection and effect oracles over made-up operands, instruction classes and encodings',
  'Made-up instructions with random trees of every operand kind and of own kinds are printed by formatters with and without CPU; '
  'encodings with own classes, handlers and keyword attributes are registered in the decoder everything shares, inside free space '
  'and inside shipped encodings, the decoder rebuilt, and added words, near misses and unrelated words decoded, streamed, printed '
  'and executed. Distinct by expected line and word.',
  {'lines': 30000, 'operand_mem': 5000, 'operand_own': 4000, 'added_decoded': 2500, 'added_executed': 2500, 'refused': 500,
   'declined': 500, 'mixed_streams': 600, 'near_misses': 1500, 'unmatched_words': 15000, 'rebuilds': 150},
  'The added encodings fix nearly all bits, so they are the most specific where they match; general tables are C21\'s.',
  (PY, SAMPLED))

C('C32', 'runtime monitor: fault injection at every kind of delegate access, with a before-or-after state oracle and a resume oracle',
  'Single instructions and programs run on delegates whose k-th access raises (before or after it is performed), on iterables that '
  'raise, and through formatters and handlers that raise; the exception object, the accesses after it, every register, flag bit and '
  'byte, and the result of running again or carrying on are compared with an unfaulted run. Distinct by encoding, access and state.',
  {'faults': 10000, 'fault_on_rm': 2000, 'fault_on_wm': 1500, 'fault_on_rr': 1000, 'fault_on_wr': 400, 'aborted_single_accesses': 2000,
   'stopped_midway': 1000, 'after_the_access': 2000, 'retries': 10000, 'programs': 1500, 'resumed': 1500, 'failing_iterables': 300,
   'accessors': 1500, 'lines_faulted': 2000, 'lines_after': 2000, 'streams_faulted': 400, 'decodes_faulted': 1000},
  'A fault interrupts at a delegate call; the PC is judged loosely, as the order of its update is not promised.', (PY, SAMPLED))

C('C33', 'runtime monitor: retention (leak) oracle by weak references and by walking what the package keeps',
  'Eleven kinds of work (decoding, streams also abandoned, formatting, executing, CPUs and delegates coming and going, bit strings, '
  'refusals, accessors, decoder tables, threads, and console sessions) repeat over the same encodings with new addresses, states and '
  'values; after warming up, dropped objects must be gone and what is reachable from the package must stop growing. Distinct by round.',
  {'rounds': 400, 'dropped': 150000, 'measured': 600, 'sessions': 16, 'commands': 6000},
  'Caches keyed by encoding saturate and are tolerated; what native containers hide is seen only through weak references.',
  (PY, SAMPLED), built=True)

C('C34', 'runtime monitor: copy oracle (replay of each lineage on a machine never copied; before/after of originals)',
  'Bit strings, instructions, delegates and whole CPUs are copied (deeply; the first two also shallowly; singly, nested, shared) and '
  'copies and originals then changed and used in random order; every machine is compared with a fresh one on which its whole '
  'lineage of actions is replayed. Distinct by lineage, encoding and value.',
  {'string_copies': 20000, 'instruction_copies': 4000, 'machine_copies': 6000, 'restored': 1500, 'lines_compared': 8000,
   'actions': 30000, 'instructions_swapped': 2000},
  'The replay runs the real code: what instructions do is decided by C05-C11.', (PY, SAMPLED))

C('C35', 'runtime monitor: fresh interpreters with an audit hook, compared with the package as loaded here',
  'Fresh interpreters load the modules alone, in random orders and spellings, several at once from threads (or first used from several), twice, with assertions off, '
  'without standard streams, among like-named files, and use each part in between, at the end and in a forked child; results are compared '
  'with this process, process-wide settings before with after, and an audit hook sees writes, processes and sockets. Distinct by plan.',
  {'loads': 400, 'loads_alone': 40, 'loads_threads': 40, 'loads_permutation': 100, 'optimised': 60, 'closed_stdio': 20, 'directory_removed': 15, 'bare_environment': 25,
   'console_imported': 100, 'used_disasm': 200, 'used_bitstring': 400, 'used_forked': 60, 'used_together': 200}, 'The expected results come from the package as '
  'loaded in the usual order: what they should be is decided by the other checks.', (PY, SAMPLED), built=True)

C('C36', 'runtime monitor: differential oracle (the same expression over a machine of the check)',
  'Sessions of random expressions (arithmetic, comprehensions, generators and lambdas over the CPU, results of every printable kind, '
  'effects, failures, bindings of names the console uses) mixed with other commands; what is printed is compared with the value of the '
  'same text over a second CPU, and registers and memory at the end. Distinct by session.',
  {'values': 18000, 'nested_scopes': 8000, 'effects': 9000, 'failing': 2000, 'bindings': 2000, 'repeats': 1500, 'pairs': 1500, 'final_checks': 3000},
  'The second CPU is the real one set up by hand; Python itself evaluates both.', CON, built=True)

C('C37', 'runtime monitor: work meter (line tracing, buffers that count what is taken, call depth, processor time) at growing sizes and histories',
  'Forty-odd operations on streams, programs, blocks, lists and bit strings are metered at n and 8n; batches of nine kinds of work on long-lived '
  'objects, and of console commands, early and after hundreds of batches; what is copied inside built-in types is judged by processor time at '
  '16 times the size. Distinct by operation, size and history.',
  {'sizes_compared': 700, 'histories_compared': 800, 'sessions': 90, 'console_batches': 270, 'console_sizes': 540, 'timed': 30, 'steps': 2000000},
  'Bounds are relative to what the same code does at a smaller size or earlier, with a third (sizes) or a tenth (histories) to spare; '
  'work inside built-in types is seen only in what is taken from buffers and in processor time.', (PY, SAMPLED), built=True)

# cheap checks run this many times their nominal quick workload
for _id, _k in {'C01': 2, 'C02': 6, 'C03': 6, 'C05': 5, 'C06': 4, 'C07': 5, 'C08': 4, 'C09': 4, 'C10': 4, 'C11': 7, 'C12': 4,
                'C14': 3, 'C15': 9, 'C16': 4, 'C17': 6, 'C18': 6, 'C19': 4, 'C20': 8, 'C21': 3, 'C22': 2, 'C23': 4, 'C24': 8,
                'C25': 3, 'C26': 2, 'C27': 2, 'C29': 2, 'C30': 2, 'C32': 3, 'C36': 3}.items():
    CHECKS[_id]['scale'] = _k
