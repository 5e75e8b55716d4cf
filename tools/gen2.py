# P01-P09: schedule checks
MCT = 'stateless model checking of the compiled code under a controlled scheduler (preemption-bounded depth-first search over all thread schedules, with state caching)'
MCN = ('The real sources (threads.h, threads.cpp, sort.cpp, the loops of _pnumpy.cpp) run, compiled with access instrumentation; there is no separate model. Assumes sequentially '
       'consistent memory, first-come-first-served futex wake-ups and the stated bound on preemptions (some histories are explored without a bound).')
SCHEDWHY = ('Quantified over schedules: a test sees the few interleavings the machine happens to produce; the windows in which the pool could go wrong are a few '
            'instructions wide.')
TH = ['src/atop/threads.h', 'src/atop/threads.cpp']
prop('P01', 'Threaded element-wise work is complete and exact under every schedule',
     'For every interleaving of the submitting thread and the worker threads, when a split operation (element-wise or reduction) returns, every element of the output has been computed '
     'exactly once with the right value, and nothing writes to the arrays after the return.',
     ['schedules', 'configurations'], 'all interleavings within the preemption bound, 2 to 8 processors, with and without the vector loops, zig-zag order on and off', SCHEDWHY,
     TH + ['src/pnumpy/_pnumpy.cpp'],
     [('claiming blocks', 'src/atop/threads.h: GetNextWorkBlock, CompleteWorkBlock'), ('waiting for the workers', 'src/atop/threads.h: WorkMain'),
      ('combining chunk results', 'src/pnumpy/_pnumpy.cpp: reduction paths of AtopBinaryMathFunction')],
     check=(MCT, 'model_checking', MCN))
prop('P02', 'Operations always return: no deadlock or lost wake-up in the pool',
     'Every operation given to the thread pool returns, whatever the schedule and the number of processors: a worker that has not started yet, that wakes late, that was woken although the '
     'work was not meant for it, or that does not exist at all never leaves the submitter, another worker or a later operation waiting for ever.',
     ['schedules', 'configurations'], 'all interleavings within the preemption bound; 1 to 8 processors; workers missing, not started or woken in another order', SCHEDWHY, TH,
     [('sleeping and waking', 'src/atop/threads.cpp: WorkerThreadFunction, WakeThreads, futex calls'), ('completion', 'src/atop/threads.h: WorkMain, DoWork')],
     check=(MCT, 'model_checking', MCN))
prop('P03', 'Operations submitted by several threads at once do not disturb each other',
     'When several application threads run operations at the same time, each operation returns and produces exactly the result it produces alone; one of them may use the worker pool and the '
     'others run unthreaded, but no work item is ever shared, lost or executed for the wrong operation.',
     ['schedules'], 'all interleavings of 2 or 3 submitters and the workers within the preemption bound', SCHEDWHY, TH,
     [('exclusive use of the pool', 'src/atop/threads.h: GetWorkItem, UnlockWorkItem, WorkMain')],
     check=(MCT, 'model_checking', MCN))
prop('P04', 'Back-to-back operations do not disturb each other and the ring is reused safely',
     'An operation that follows another one at once is not affected by workers that still leave the earlier one, for every schedule and any number of earlier operations: also when the ring '
     'of work items wraps around and an item is used again.',
     ['schedules', 'histories'], 'all interleavings of sequences of up to 6 operations within the preemption bound, starting at every interesting position of the ring', SCHEDWHY, TH,
     [('ring of work items', 'src/atop/threads.h: WorkItems, WorkIndex, WorkIndexCompleted'), ('generation handed to a worker', 'src/atop/threads.h: DoWork')],
     check=(MCT, 'model_checking', MCN))
prop('P05', 'Parallel sorting is correct under every schedule',
     'A parallel sort or index sort returns a sorted permutation of its input (a stable one for the merge sort), whatever order the threads sort and merge their parts in and whichever thread does '
     'the last merge; with partitions each partition is sorted on its own.',
     ['schedules'], 'all interleavings within the preemption bound of sorts, index sorts and partitioned index sorts', SCHEDWHY, ['src/atop/sort.cpp'] + TH,
     [('parallel merge tree', 'src/atop/sort.cpp: IsBuddyBitSet, ParMergeInPlaceThreadCallback, ParArgSortCallback, par_sort, par_amergesort')],
     check=(MCT, 'model_checking', MCN))
prop('P06', 'Helper work splitters cover every item exactly once',
     'The helpers that run counted work items, chunks of an index range, record conversion, arange filling and the sortedness test over the pool process every item or chunk exactly once '
     'for every schedule, also when nested inside a running work item.',
     ['schedules', 'configurations'], 'all interleavings within the preemption bound; 0 to 5 items, chunk sizes with and without a remainder', SCHEDWHY,
     TH + ['src/atop/recarray.cpp', 'src/atop/fill.cpp', 'src/atop/sort.cpp'],
     [('counted and chunked work', 'src/atop/threads.h: DoMultiThreadedWork, DoMultiThreadedChunkWork'), ('users', 'src/atop/recarray.cpp, src/atop/fill.cpp, src/atop/sort.cpp: IsSorted')],
     check=(MCT, 'model_checking', MCN))
prop('P07', 'Changing the thread settings while operations run is harmless',
     'A thread may enable or disable threading, change the number of workers or toggle zig-zag mode at any moment while other threads run operations: these still return with exact results, and the '
     'settings hold for the operations that follow.',
     ['schedules', 'histories'], 'all interleavings within the preemption bound of an operation and a sequence of settings changes', SCHEDWHY, TH + ['src/pnumpy/_pnumpy.cpp'],
     [('settings', 'src/atop/threads.h: NoThreading, SetFutexWakeup; src/pnumpy/_pnumpy.cpp: thread_* functions')],
     check=(MCT, 'model_checking', MCN))
prop('P08', 'A process forked at any moment can go on computing',
     'A child process created by fork at any moment, while workers sleep, wake up or work, can run operations: they return exact results, although the child has none of the worker threads.',
     ['schedules', 'crash_points'], 'a fork at every scheduling point of the explored histories, interleavings within the preemption bound', SCHEDWHY + ' No test forks while a worker is busy.', TH,
     [('state of the pool in the child', 'src/atop/threads.cpp: fork handlers; src/atop/threads.h: WorkMain')],
     check=(MCT, 'model_checking', MCN))
prop('P09', 'Running out of memory never gives a wrong result or a stuck pool',
     'If any of the work-space allocations of a sort, an index sort or a reduction over many blocks fails, in whichever thread, a sort reports the failure and a reduction gets by without it; no operation returns data that '
     'is not sorted or a wrong value, none crashes, and the operations that follow run normally.',
     ['fault_sequences', 'schedules'], 'failure of each of the first allocations, all interleavings within the preemption bound', 'No test makes an allocation fail.',
     ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', 'src/atop/threads.h', 'src/pnumpy/_pnumpy.cpp'],
     [('results of the blocks of a reduction', 'src/pnumpy/_pnumpy.cpp: AtopBinaryMathFunction'), ('failure of a part of a parallel sort', 'src/atop/sort.cpp: par_sort, par_amergesort and their callbacks'), ('release of the pool on failure', 'src/atop/threads.h: UnlockWorkItem')],
     check=(MCT + ', with fault injection into every allocation', 'model_checking', MCN))
# P20..: API differential exploration
APT = 'bounded-exhaustive exploration of call sequences on the real functions, each state compared with numpy alone'
APN = ('Every case of a stated finite space is executed twice: in a process with the package loaded (hooks installed, real extension, array buffers backed by guard pages) and in a process with numpy '
       'alone (the oracle). Results, dtypes, errors and side effects on the inputs are compared; crashes and hangs are attributed to their case.')
APWHY = 'Quantified over inputs: the tests sample a handful of arrays; the failures need a particular length, layout, value order or option.'
prop('P18', 'Every call form of a ufunc agrees with numpy alone',
     'With the package enabled, calling any ufunc in any of the forms numpy offers - operands of mixed types, dtype=, casting=, out= of another type or layout, where=, broadcasting, reduce over any axes with keepdims, '
     'initial, where and out, accumulate, reduceat, at, outer, in-place operators, subclasses, objects with protocols of their own, any buffer size - gives the value, type, layout and exception numpy alone gives, and so '
     'do the functions of numpy that are built on ufuncs.',
     ['inputs', 'configurations'], 'all pairs of operand types, all masks of 10 elements, all pairs of 16 operand shapes and layouts, all axes, all short index vectors, buffer sizes, lengths around every boundary', APWHY,
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/threads.h'],
     [('replaced loops', 'src/pnumpy/_pnumpy.cpp: newinit, Atop*MathFunction'), ('recognition of a reduction and of its operands', 'src/pnumpy/_pnumpy.cpp: IS_BINARY_REDUCE, CanThreadReduce, HasPartialOverlap')],
     check=(APT, 'exploration', APN + ' Complex absolute values and the tests isnan, isinf, isfinite, signbit into a strided output are left out: there numpy 1.26 itself is wrong or not reproducible (P16 decides the latter).'))
prop('P20', 'Sorting returns the elements in order, whatever the array',
     'ndarray.sort through the hook and pnumpy.sort return a permutation of the input in ascending order, nan last, exactly as numpy does, for every supported dtype, length, order of '
     'values, memory layout, axis and kind, whether the sort ran in parallel or not; they never touch memory outside the array.',
     ['inputs', 'configurations'], 'all short value sequences over a pool per dtype, lengths around every internal threshold, layouts, axes, kinds, serial and parallel', APWHY,
     ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/sort.py'],
     [('sort hook', 'src/pnumpy/sorting.cpp: quicksort_..., src/atop/sort.cpp: quicksort_, mergesort_, heapsort_, par_sort'), ('Python entry', 'src/pnumpy/sort.py: sort')],
     check=(APT, 'exploration', APN))
prop('P21', 'Index sorting returns a stable, correct order',
     'ndarray.argsort through the hook and pnumpy.argsort return indexes that put the array in ascending order with nan last, stable when a stable kind is requested, for every supported dtype, '
     'length, layout, axis and kind, serial or parallel.',
     ['inputs', 'configurations'], 'all short value sequences over a pool per dtype, lengths around every internal threshold, layouts, axes, kinds, serial and parallel', APWHY,
     ['src/atop/sort.cpp', 'src/pnumpy/sorting.cpp', 'src/pnumpy/sort.py'],
     [('index sort hook', 'src/atop/sort.cpp: aquicksort_, amergesort_, aheapsort_, par_amergesort; src/pnumpy/sorting.cpp')],
     check=(APT, 'exploration', APN))
prop('P22', 'lexsort returns the stable order for any keys',
     'pnumpy.lexsort, lexsort32 and lexsort64 return the stable indirect order numpy.lexsort returns (last key first), for any number, type, layout and form of keys; with cutoffs each '
     'partition is ordered on its own; with an index that index is ordered. Arguments that do not fit are refused with an exception; nothing outside the arrays is read or written.',
     ['inputs', 'configurations'], 'all short key sets, every partition and index vector of short keys, invalid ones too, all shapes up to 131,072 rows serial and parallel', APWHY,
     ['src/pnumpy/sorting.cpp', 'src/atop/sort.cpp', 'src/pnumpy/sort.py', 'src/pnumpy/common.cpp'],
     [('lexsort', 'src/pnumpy/sorting.cpp: lexsort<>, CMultiListPrepare; src/atop/sort.cpp: SortIndex, par_amergesort'), ('arguments', 'src/pnumpy/common.cpp: BuildArrayInfo')],
     check=(APT, 'exploration', APN))
prop('P24', 'Boolean mask indexing selects exactly the masked elements',
     'pnumpy.getitem(a, mask), and a[mask] while the __getitem__ hook is on, return what numpy returns for a[mask]: the selected elements in order, in an independent array of the same dtype, for every '
     'dtype, length, mask and layout, serial or parallel. The hook changes no other kind of index and no derived class, also after it was removed.',
     ['inputs', 'configurations', 'histories'], 'every mask up to 9 elements, single-bit masks up to 70, patterns around every internal limit, 1-3 dimensions, enable/disable histories up to 5', APWHY,
     ['src/pnumpy/getitem.cpp', 'src/pnumpy/_pnumpy.cpp', 'src/pnumpy/common.cpp'],
     [('mask count and copy', 'src/pnumpy/getitem.cpp: SumBooleanMask, BooleanCount, BooleanIndexInternal'), ('hook', 'src/pnumpy/_pnumpy.cpp: GetItemHook, hook_enable, hook_disable')],
     check=(APT, 'exploration', APN))
prop('P25', 'Index vectors select the right elements, out of range gives the default',
     'pnumpy.getitem(a, index[, default]) returns a[i] for every index i in range (negative ones from the end) and the default, or the invalid value of the dtype, for every other one, for every index '
     'type, dtype and layout, serial or parallel; it never touches memory outside the arrays and counts references correctly.',
     ['inputs', 'configurations'], 'every index vector up to 3 elements, extremes of every index type, defaults of every kind, layouts, parallel lengths', APWHY,
     ['src/pnumpy/getitem.cpp', 'src/pnumpy/common.cpp'],
     [('fancy index', 'src/pnumpy/getitem.cpp: getitem, GetItemInt, GetItemUInt, GetItemIntVariable, GetItemUIntVariable, GetItemCallback')],
     check=(APT, 'exploration', APN))
prop('P26', 'Record arrays split into exactly their fields',
     'recarray_to_colmajor(a) returns, for every field of a in order, a new contiguous array equal to a[name], for every combination of field types, offsets, padding, length and layout, serial or '
     'parallel. Arguments of the extension function that do not fit together are refused before anything is written.',
     ['inputs', 'configurations'], 'every field type at every alignment, all pairs of types, lengths around the block and chunk limits, layouts, every kind of wrong argument', APWHY,
     ['src/atop/recarray.cpp', 'src/pnumpy/conversions.cpp', 'src/pnumpy/recarray.py'],
     [('conversion', 'src/atop/recarray.cpp: ConvertRecArray, RecArrayToColMajor'), ('arguments', 'src/pnumpy/conversions.cpp: recarray_to_colmajor; src/pnumpy/recarray.py')],
     check=(APT, 'exploration', APN))
prop('P27', 'argmin, argmax and searchsorted agree with numpy',
     'The argmin and argmax hooks and pnumpy.argmin, argmax and searchsorted return what numpy returns (first occurrence, nan counts as extreme, axis, out, sorter, side), for every dtype, length, layout and '
     'kind of argument.',
     ['inputs'], 'all short sequences, one displaced element at every position, every axis and layout, all sorted arrays and sorters of short length', APWHY,
     ['src/pnumpy/sort.py', 'src/pnumpy/_pnumpy.cpp'],
     [('hook', 'src/pnumpy/_pnumpy.cpp: AtopArgMinMaxMathFunction'), ('Python entry', 'src/pnumpy/sort.py: argmin, argmax, searchsorted, _wrapfunc')],
     check=(APT, 'exploration', APN))
prop('P28', 'arange fills every element exactly as numpy does',
     'With the fill hook installed numpy.arange, and everything built on it, returns bit for bit the array numpy alone returns, for every dtype, start, step and length, serial or parallel.',
     ['inputs', 'configurations'], 'all pairs from tables of starts and steps with the extremes of each type, lengths 0..140 and around every chunk limit', APWHY,
     ['src/atop/fill.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('fill', 'src/atop/fill.cpp: ArangeFillType, ArangeFill; src/pnumpy/_pnumpy.cpp: AtopArangeMathFunction')],
     check=(APT, 'exploration', APN))
prop('P30', 'No setting changes the result of an operation',
     'Whatever combination of atop, threads, number of workers, ledger, recycler, zig-zag mode and __getitem__ hook is set, every operation returns what numpy alone returns, and leaves the settings as they are.',
     ['configurations', 'inputs'], 'all 256 combinations of the settings, 43 operations of every kind below and above the threading limits', 'The tests run with the settings the previous test left; few combinations are ever tried.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/cpu.py', 'src/atop/threads.h'],
     [('settings', 'src/pnumpy/_pnumpy.cpp: g_Settings, Atop*MathFunction; src/atop/threads.h')],
     check=(APT, 'exploration', APN))
prop('P31', 'Settings read back exactly as the last command set them',
     'After any sequence of the enable/disable, worker, zig-zag, init and query functions, every query function reports the state the last commands define, return values (previous value, toggled state, refused '
     'arguments) are right, and operations go on working.',
     ['histories'], 'every state of the settings model with every command, and all command sequences up to depth 4', 'Quantified over histories of commands; the tests try three.',
     ['src/pnumpy/_pnumpy.cpp', 'src/pnumpy/cpu.py', 'src/atop/threads.h'],
     [('settings functions', 'src/pnumpy/_pnumpy.cpp: atop_*, thread_*, ledger_*, recycler_*, hook_*, newinit; src/pnumpy/cpu.py'), ('limits', 'src/atop/threads.h: SetFutexWakeup')],
     check=('explicit-state exploration of a settings model, every transition and every bounded history executed on the real package', 'model_checking',
            'The model has seven settings and 29 commands; its states are enumerated completely, and conformance is not sampled: each transition is executed on the real package and compared.'))
prop('P32', 'The ledger only observes',
     'Recording operations in the ledger changes no result, never fails for any hooked function, type, length or call form, and stays on until it is disabled.',
     ['inputs', 'configurations'], 'every hooked function and type in every call form, five lengths, serial and threaded, more operations than the ring holds', 'No test enables the ledger and compares results.',
     ['src/pnumpy/ledger.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('recording', 'src/pnumpy/ledger.cpp: LedgerRecord, LedgerRecord2, stLedgerRing; src/pnumpy/_pnumpy.cpp: LEDGER_START, LEDGER_END')],
     check=('bounded-exhaustive exploration of call sequences on the real functions with the ledger on and off', 'exploration', APN))
prop('P33', 'Threads may act at any moment of an operation of another thread',
     'While an operation is at any point of its work in one thread, another thread may change any setting, run operations of its own, or fork a child that computes: all results are those of numpy alone, and the '
     'settings afterwards are those the commands define.',
     ['schedules', 'crash_points', 'histories'], 'a stop at every page of short operands and selected pages of long ones, 29 commands, 21 operations, 6 settings states', SCHEDWHY + ' It covers on the real extension with the real interpreter what P07 and P08 explore on the engine alone.',
     ['src/pnumpy/_pnumpy.cpp', 'src/atop/threads.h', 'src/pnumpy/ledger.cpp', 'src/pnumpy/sorting.cpp'],
     [('state shared by operations and settings', 'src/pnumpy/_pnumpy.cpp: g_Settings, ledger state, hook; src/atop/threads.h: worker pool')],
     check=('exhaustive enumeration of stop points (page accesses of the real operation under a fault-injecting memory controller) and of the commands executed there', 'exploration', APN))
prop('P35', 'Floating point errors are reported as numpy reports them',
     'An operation reports a division by zero, an overflow or an invalid value (np.errstate, np.seterr, warnings) exactly when numpy alone does: none is lost, wherever the element lies, however the array is laid out '
     'and whichever thread computes it, none is made up, and none appears in an operation of another thread or in the next operation. (Underflow is not covered.)',
     ['inputs', 'schedules', 'configurations'], 'every position of every special operand pair for every length up to several vectors, layouts, reductions, arrays split over threads, every schedule of the pool within the bound',
     'The tests never look at floating point errors.',
     ['src/atop/threads.h', 'src/atop/threads.cpp', 'src/atop/ops_binary.cpp', 'src/atop/ops_compare.cpp', 'src/atop/ops_unary.cpp', 'src/atop/ops_trig.cpp', 'src/pnumpy/_pnumpy.cpp'],
     [('status handed over by the workers', 'src/atop/threads.cpp: worker loop; src/atop/threads.h: FloatErrors, WorkMain'), ('kernels', 'src/atop/ops_*.cpp')],
     check=('exhaustive differential of the floating point status left by every installed loop, plus stateless exploration of the schedules of the real worker pool with a status per thread', 'exploration',
            'Special values are those of a fixed list. One operand pair (or two elements of a reduction) is special at a time. ' + DIFFNOTE))
