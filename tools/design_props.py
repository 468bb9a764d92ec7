# one entry per property: what is specified and enumerated, what the oracle is, why tests cannot reach it
P = {
"C01": ("SEQ", "Operations write (2 values), time to live, read, delete, clean, verify, flush, count and clock steps on two keys, with and without expiration and with validators by age or key; all durations from 1 ns to 100 days; configuration changed between operations; log on; 20 kinds of values including nil; unusual keys; times to live of all sizes set one after the other.",
 "Model of the cache: value, time of writing, own time to live, order of use. Compared after each step: value, flag, counts.",
 "Tests run a few sequences with real sleeps. Orders such as write, own time to live, overwrite, wait, read are reached only by enumeration, and waiting for days only by a virtual clock."),
"C02": ("SEQ", "Same operations with maxima 0..4 (5), both map orders; families over sizes, touched entry, percentage, number of expired entries, refilling after emptying, larger maxima; pairs of reads and durations of many entries in caches of up to 1100.",
 "Same model with order of last use. Every result is compared (reads, counts, numbers removed); which keys are left shows by the reads and cleanings the search tries from each state, and by emptying at the end of each family case.",
 "One fill pattern is tested; rounding at some size, recency after a mixed history and ghosts in the order list need the product of sizes, positions and histories."),
"C03": ("SCHED", "All programs of the cache operations on 2 and 3 goroutines, in every combination of expiration, own time to live, maximum and validator, from several starting contents, among up to 1100 other entries.",
 "Race detector, panic, deadlock, number of entries over the maximum meanwhile; at the end count, keys and complete emptying must agree.",
 "The window is a few instructions wide and the test takes the schedule it is given."),
"C04": ("SCHED", "As C03 with results compared; with a maximum, evictions run among concurrent writers.",
 "Linearizability against the cache model.",
 "A lost update needs a goroutine stopped between check and action."),
"C05": ("SEQ + SCHED", "Histories with recording validators; validators that call each operation of the cache, also so that one question leads to another; validators that panic at the first or second call followed by all pairs of operations; verification with up to 300 (1100) entries; unusual and very long keys; validators at work while other goroutines act.",
 "Recorded calls (key, time of writing) against the model; use of the cache from inside must return; after a panic everything works; no entry removed without a negative answer.",
 "Re-entrance and panics are not tested; the calls are not observed."),
"C06": ("SEQ", "All trees of nested data up to depth 3 in plain, thread-safe, mixed and program-written kinds x all paths up to 4 (5) segments, including wrong, negative, empty and out-of-range ones; unusual names, names spelt like a path, long collections, up to 140 levels.",
 "A walker over the abstract tree; every typed reader and both kinds must agree with it.",
 "The number of wrong paths is what matters; tests have a few right ones."),
"C07": ("SEQ", "About 180 values: every kind, named types, nil pointers, errors, not-a-number x limits, zero, negative, fractions, neighbours of integers, special times, long texts and lists x 12 readers x {top level, nested, absent} x both kinds of dataset.",
 "Conversion table written from the manual.", "One value per some kinds is tested."),
"C08": ("SEQ", "Sequences and breadth-first search of set, overwrite, delete and all readers over four sets of keys and values, on plain, thread-safe (new, zero, around other data) datasets, with changes through the wrapped data too; families of up to 1030 keys.",
 "Map model, identity of stored values, equality with the plain kind, printed forms.", "Sequences and the equivalence are not tested."),
"C09": ("SEQ", "Sequences and breadth-first search of push, pop, shift, unshift with elements of different content on both kinds; all positions and keys asked after each step; families of long lists; unusual keys spread over the elements.",
 "List model with search from the last element.", "Conflicting entries and wrong kinds are hardly tested; capacity effects need longer lists."),
"C10": ("SEQ", "All shapes of nested datasets and collections up to depth 3 x kind of each node x {source, clone} x each container x 8 changes; pairs of changes for small shapes; unusual names; every kind of value; wide and deep data with everything on one side changed at once.",
 "Deep snapshots through the readers: equality and kinds at cloning, then the untouched side must stay as it was.", "Sharing appears only for certain kinds at certain depths."),
"C11": ("SCHED", "All programs of all operations on a shared thread-safe dataset (clone, print, nested paths included), zero value written first by several, from several contents, also among 140 other keys.",
 "Race, panic, deadlock, linearizability against the map model.", "The test has uncontrolled goroutines and ignores results."),
"C12": ("SCHED", "The same for the thread-safe collection from empty and filled; elements changed meanwhile through their own locks; collections of up to 140 elements.",
 "Race, panic, deadlock, linearizability against the list model.", "As C11."),
"C13": ("SEQ", "Source maps to depth 2 (3) with lists of maps, mixed and empty lists, nested lists and nil maps, as dataset and collection, all pairs of kinds of values, long lists (to 4100), deep sources (to 260), both map orders; printing of all subsets of keys in all orders.",
 "Abstract tree of the source; the source compared with its copy; printed forms compared across orders and taken apart key by key.", "One structure is built; the order of a map is left to chance."),
"C14": ("SEQ", "All texts of up to 6 (7) significant pieces, all bytes, pieces that mean something in other formats, lone carriage returns, all sequences of typical lines, long lines, many lines, as text and as file, into empty and filled tables; unreadable files.",
 "A line reader written from the statement.", "A single sample file is tested."),
"C15": ("SEQ", "Tables with all strings of up to 3 (4) of 21 significant pieces as value, name, status, key; big tables; documents of up to 3 (4) entries in 16 styles of writing; all truncations; a list of malformed documents and entities.",
 "Equality of the table after the round trip; entries known from the construction of the document; unchanged after refusal.", "No export is read back in the tests."),
"C16": ("SEQ", "All sequences and breadth-first search of set, status, delete, loads, name, language, copies; families of up to 1100 entries; names and texts of unusual characters in pairs.",
 "Two maps; the list handed out is changed and compared.", "Single operations are tested."),
"C17": ("SCHED", "All programs of all operations on a shared table including text and XML loads, export and printing; tables and documents of up to 140 entries.",
 "Race, panic, deadlock, linearizability (text loads of several lines: no linearizability, they are not one operation).", "No test shares a table."),
"C18": ("SEQ", "All texts of up to 4 (5) of 24 pieces (delimiters, names, line ends, bytes), six families up to 6 (7) pieces, every byte, sizes to 200 000, files, and each refused load after a good one.",
 "A scanner written by hand from the manual (no regular expressions) with an interpreter.", "Delimiter combinations and wrong nesting are not tested."),
"C19": ("SEQ", "Subsets of loop, condition and reference variants x forms x data; 65 536 combinations of 16 elements in 4 places x 5 data; nested loops, long loops, deep data, texts of templates as values, language tables inside, fields and entries of the same name, same names defined inside, dumps; data in plain, thread-safe and program-written kinds.",
 "Independent interpreter of the manual's rules.", "Priorities and levels show only in combination."),
"C20": ("SEQ", "All forests of up to 4 (5) definitions with names s, t, s|t and references from each level; programs of 4 (5) additions, moves and shared additions by program, also of templates not yet loaded; scopes up to 101 deep; definitions of many names.",
 "The interpreter with scopes; for programs a model of the tree.", "One nested sample is tested."),
"C21": ("SEQ", "Combinations of elements x 22 data (none, empty, nil, wrong kinds, thread-safe) executed repeatedly, in between other data, 300 (3000) times.",
 "Deep snapshots of data and template before and after, equal text, no panic.", "Tests execute once and look only at the text."),
"C22": ("SEQ", "Forests and combinations x {clone, clone of a clone} x side x sub-template x 6 changes; clones of sub-templates; large and deep templates with everything on one side changed at once.",
 "Text rendered by both sides before and after.", "One clone is compared once."),
"C23": ("SCHED", "Templates covering all elements x pairs and triples of execute, clone, print and lookups, with separate and shared data and a shared table; large templates and long loops.",
 "Race, panic, deadlock, text as alone.", "No test executes from two goroutines."),
"C24": ("SEQ + SCHED", "C01, C02 and C05 on version 1.", "The same models.", "As C01, C02, C05."),
"C25": ("SCHED", "C03 and C04 on version 1.", "The same monitors.", "As C03, C04."),
"C26": ("SEQ", "C06 to C10 and the printing part of C13 on version 1.", "The same models with the version 1 differences.", "As there."),
"C27": ("SEQ", "C14, C16 and the loading part of C15 on version 1.", "The same models.", "As there."),
"C28": ("SEQ", "C18 to C21 on version 1 with its element syntax and rules.", "Scanner and interpreter of the version 1 rules.", "As there."),
"C29": ("SEQ, faults", "For six kinds of loading objects all sequences of 3 (4) loads over 13 states of the file (good, other, empty, malformed, missing, directory, file in the place of a directory, link, dangling and looping link, …), by method and by constructor; contents of every size up to 1100 (9000) bytes and around powers of two up to 1 MiB.",
 "Loading the content as text; files open counted in /proc/self/fd with the garbage collector off; bytes of the file compared.", "Tests load one existing file and do not look at what stays open."),
"C30": ("SCHED", "Templates looking once at the data x changes; templates with loops, nested loops and dumps x one and two changes by other goroutines, also with 70 more elements.",
 "Race, panic, deadlock; the text must be one of those of the moments during the rendering, or, for loops, a concatenation of complete renderings of elements that were there.", "The window lies between counting and reading."),
"C31": ("SCHED", "Pairs and triples of reading operations of version 1 on the same template, data and table.",
 "Race detector; results as alone.", "Tests use every object from one goroutine."),
"C32": ("SEQ", "All texts of up to 4 (5) of 13 pieces in both versions, printed again, compiled again, after execution, cloned.",
 "Every element's content present as often as it occurs; different element lists print differently; equal ones alike.", "One template is printed."),
"C33": ("SCHED + SEQ", "All pairs, 2+1 and triples of 16 tasks, each making and using objects of its own; all pairs of changes to one of two objects made alike in 20 ways; all pairs of tasks as the first work of a process.",
 "Race detector; results as alone; the other object and objects made later unchanged.", "Global state shared between objects shows only when two are alive or used at once."),
}
