#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that titles and statements stay in one place)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

X="v2/xcache.go"
p("C01","Cache reads return exactly the last stored value, or say why not",
 "After any sequence of cache operations and passing of time, reading a key returns the value of the latest write to that key with the 'invalid' flag down as long as the entry was neither removed, evicted, expired (cache-wide duration or its own time to live, both counted from the write) nor refused by the validator. An entry that has expired or is refused gives no value with the 'invalid' flag up exactly once and is gone afterwards; an absent key gives no value with the flag down. A new write to a key starts a new life: fresh creation time, no time to live.",
 ["histories","configurations"],"all sequences of write, time-to-live, read, delete, clean, verify, flush, count and clock advances over a small key set, for all combinations of expiration and validator settings",
 "the unit tests run a handful of fixed sequences with real sleeps; orderings of expiry, overwrite and re-insertion are never enumerated",
 [X],[("Get","v2/xcache.go: XCache.Get"),("Set","v2/xcache.go: XCache.Set"),("SetTTL","v2/xcache.go: XCache.SetTTL"),("Clean/Verify/Flush","v2/xcache.go")],
 ["return values of Get, Count, Clean, Verify"],
 [("items","live entries by key","v2/xcache.go: XCache.items"),("pile","keys in order of last use","v2/xcache.go: XCache.pile")])
p("C02","Cache never exceeds its maximum and evicts the least recently used first",
 "With a maximum of M entries the cache never holds more than M entries after any operation, and when a write fills it up, the entries removed are the least recently read or written ones, one tenth of the content rounded down (at least what is needed to stay within M), so the entry just written stays. Asking for a cleaning of p percent first removes the expired entries, then the floor of p percent of the rest, the least recently used first, and the number reported is the number of entries that left the cache. The number of entries reported always equals the number of keys that can still be read or found expired.",
 ["histories","configurations","inputs"],"all operation sequences over a small key set for small maxima, plus all (size, touched entry, percentage) combinations up to a size bound",
 "the tests check one clean on one fill pattern; recency after mixed reads, deletes, expiry, flush and refill is not covered",
 [X],[("recency list","v2/xcache.go: removeFromPile, pile"),("mClean","v2/xcache.go: XCache.mClean"),("limit check in Set","v2/xcache.go: XCache.Set")],
 ["Count, return of Clean/Verify, which keys survive"])
p("C03","Concurrent use of a cache has no data race, panic, deadlock or corruption",
 "Whatever operations goroutines run on one shared cache and however they interleave, there is no data race, no panic, no deadlock, the number of entries reported never exceeds the maximum even meanwhile, and when all have returned the cache is consistent: the number of entries reported equals the number of readable keys, the maximum is respected, and emptying it by cleaning removes every entry exactly once. This holds with every combination of expiration, time to live, maximum and validator.",
 ["schedules","programs","configurations"],"all interleavings (2 goroutines unbounded, 3 goroutines with bounded preemptions) of all short programs over the cache operations",
 "the concurrency test starts goroutines and takes whatever schedule the machine gives; without a race detector and without a controlled schedule a window of a few instructions is not hit",
 [X],[("RW mutex","v2/xcache.go: XCache.mutex"),("lock-free section of Get","v2/xcache.go: XCache.Get"),("Verify loop","v2/xcache.go: XCache.Verify")],
 ["race reports, panics, blocked goroutines, Count/Get/Clean after the join"])
p("C04","Concurrent cache operations behave as if executed one at a time",
 "For every interleaving of writes, reads, deletes, time-to-live settings on unexpired entries, cleanings of expired or of all entries, flushes and counts on a shared cache (with a maximum: of all of these but reads, evictions included), the observed results and the final content are those of some one-at-a-time order of the same operations that respects their real-time order. In particular the invalidation of an old entry never removes a value written meanwhile, and a removed entry never comes back (several overlapping readers may each be told that the same old entry is invalid).",
 ["schedules","programs","histories"],"all interleavings of all pairs of short programs over two keys, from initial states with live, expired and refused entries",
 "a lost update needs a read to be stopped between its check and its deletion; no test controls that",
 [X],[("check-then-act in Get","v2/xcache.go: XCache.Get"),("critical sections","v2/xcache.go: Set, Del, mClean")],
 ["results of every operation, final content"])
p("C05","Validator is asked correctly, may use the cache itself, and may fail",
 "On each read of a present unexpired entry, and for each unexpired entry during a verification, the validator is asked with that entry's key and the time of its last write, and its answer decides. It is called while the cache is usable: it may itself read, write, delete or count on the same cache without blocking, and if it panics the cache stays usable for everybody else. Without an answer of 'invalid' no entry is removed by it, and cleaning never asks it.",
 ["histories","inputs","fault_sequences"],"all short histories with validators that answer by key and age, that re-enter the cache with each operation, or that panic on the n-th call",
 "the tests use one file-based validator and never re-enter or panic",
 [X],[("Validator call sites","v2/xcache.go: Get, Verify")],["calls recorded by the validator, results of later operations"])

D="v2/xdataset.go"
p("C06","Path lookups resolve exactly the addressed nested value",
 "Looking up a path of names separated by '>' returns the value reached by walking nested datasets by name and collections by zero-based position; a missing name, a non-numeric or out-of-range position, or a step into a plain value gives 'not found', never a panic or another value. All typed readers and the thread-safe wrapper resolve paths identically.",
 ["inputs"],"all dataset trees up to depth 3 over a small name set combined with all paths up to 4 segments over names, positions and junk",
 "a few fixed paths are tested",
 [D,"v2/xdatasetts.go"],[("Get","v2/xdataset.go: XDataset.Get")],["Get, GetDataset, GetCollection, GetString and XDatasetTS equivalents"])
p("C07","Typed readers convert every supported value by the documented rules",
 "For every value of every supported kind (booleans, all integer and float widths, strings, times, nil, slices, nested data, other) each typed reader returns the documented conversion: strings by natural formatting with nil as empty, booleans by non-zero / non-nil, integers by truncation, floats by widening, times as Unix seconds with the zero time as 0, slices only by exact kind. When no conversion exists it says so with the zero value, it says so for absent keys, and it never panics nor changes the data.",
 ["inputs"],"every kind crossed with boundary values and every typed reader, on the plain and the thread-safe dataset",
 "the tests cover some kind/reader pairs with one value each",
 [D,"v2/xdatasetts.go"],[("GetString..GetTimeCollection","v2/xdataset.go")],["typed reader results"])
p("C08","Datasets behave as a map; the thread-safe one is indistinguishable",
 "After any sequence of set, overwrite and delete operations a dataset contains exactly the latest value of each key not deleted since, with every value returned identical to the one stored. The thread-safe dataset, built empty or around another dataset, gives the same results as the plain one for the same sequence, including when its zero value is written to, it works on the wrapped data itself, not on a copy, and its printed forms equal those of the wrapped data.",
 ["histories"],"all operation sequences up to a length bound over a few keys and values, on both kinds",
 "single set/get pairs are tested; sequences and the equivalence are not",
 [D,"v2/xdatasetts.go"],[("Set/Get/Del","v2/xdataset.go"),("wrapper","v2/xdatasetts.go")],["Get, String, GoString after every step"])
p("C09","Collections behave as a double-ended list with last-entry-first key search",
 "After any sequence of pushes, pops, shifts and unshifts a collection holds exactly the expected datasets in order, position reads give the element or 'not found', and a key search returns the value from the last element that has the key, with typed variants succeeding only for the exact kind and never panicking. The thread-safe collection gives the same results as the plain one, and removing from an empty thread-safe collection returns nothing and leaves it usable.",
 ["histories","inputs"],"all operation sequences up to a length bound over a few distinct datasets, on both kinds, with all key/kind searches after each step",
 "only fixed sequences are tested, and the search on conflicting entries or wrong kinds hardly at all",
 ["v2/xdatasetcollection.go","v2/xdatasetcollectionts.go"],[("Push/Pop/Shift/Unshift","v2/xdatasetcollection.go, v2/xdatasetcollectionts.go"),("GetData","same")],["results of all collection operations"])
p("C10","Clones of datasets and collections are equal and fully independent",
 "A clone has the same kind, the same keys, order and values as its source at every nesting level, and shares no nested dataset or collection with it: any later set, delete, push, pop, shift or unshift at any depth on either side leaves the other unchanged. This holds for plain and thread-safe kinds nested in any combination.",
 ["inputs","histories"],"all nesting combinations of the four kinds up to depth 3, and every single mutation at every position on either side after cloning",
 "the tests clone one structure and change one top-level key",
 [D,"v2/xdatasetts.go","v2/xdatasetcollection.go","v2/xdatasetcollectionts.go"],[("Clone","all four files")],["deep content of both sides after each mutation"])
p("C11","Concurrent use of the thread-safe dataset is race-free and atomic",
 "Whatever operations goroutines run on one shared thread-safe dataset and however they interleave, there is no data race, panic or deadlock, and results and final content are those of some one-at-a-time order respecting real time. A clone or printed form taken meanwhile shows one consistent moment.",
 ["schedules","programs"],"all interleavings of all pairs of short programs over all operations, 3 goroutines with bounded preemptions",
 "the concurrency test uses uncontrolled goroutines and does not check results",
 ["v2/xdatasetts.go"],[("RW mutex","v2/xdatasetts.go: XDatasetTS.mutex")],["results, race reports, final content"])
p("C12","Concurrent use of the thread-safe collection is race-free and atomic",
 "Whatever operations goroutines run on one shared thread-safe collection and however they interleave, there is no data race, panic or deadlock, no element is lost, duplicated or reordered, and results and final content are those of some one-at-a-time order respecting real time. Key searches, clones and printed forms taken meanwhile see one consistent moment.",
 ["schedules","programs"],"all interleavings of all pairs of short programs over all operations, starting from empty and filled collections",
 "the concurrency test uses uncontrolled goroutines and does not check results",
 ["v2/xdatasetcollectionts.go"],[("RW mutex","v2/xdatasetcollectionts.go: mutex")],["results, race reports, final content"])
p("C13","Building from plain maps keeps all data; printing is complete and stable",
 "Building a dataset or collection from standard maps and lists keeps every key and value, turns every nested map into a dataset and every list of maps into a collection in the same order (list items that are not maps are left out), and does not alter the source. The printed forms list every key or element exactly once, and equal content always prints the same text whatever the insertion order.",
 ["inputs","histories"],"all source structures up to depth 3 over a small alphabet, all insertion orders, both map iteration orders",
 "one structure is built in the tests; map iteration order is not controlled",
 [D,"v2/xdatasetcollection.go"],[("NewXDataset","v2/xdataset.go"),("String/GoString","v2/xdataset.go, v2/xdatasetcollection.go, v2/xdatasetts.go")],["lookups on the result, String, GoString"])

L="v2/xlanguage.go"
p("C14","Language text files load exactly their key=value lines",
 "Loading a text gives exactly one entry per distinct name found on lines with an '=' whose first character is not '#' or ';' and whose name is not blank: name and value are trimmed, the value is everything after the first '=', the last line wins, lines may be of any length and end in LF or CRLF. Entries already in the table and not named in the text stay, and loading from a file equals loading its content; a file that cannot be read gives an error, no table, and changes nothing.",
 ["inputs","fault_sequences"],"all texts up to a length bound over the significant characters, as string and as file, into empty and filled tables",
 "a single sample file is tested",
 [L],[("LoadString/LoadFile","v2/xlanguage.go")],["Get, GetEntries, String after the load"])
p("C15","Language tables survive an XML round trip; bad XML changes nothing",
 "For any table, exporting it to XML and loading that XML gives back the same name, language and entries with their texts and statuses, whatever characters XML can carry they contain. Loading XML takes every entry with its identifier, text and status (last one wins, also when the language it names is not known), keeps other entries, and malformed or unreadable XML gives an error, no table, and leaves an existing one untouched; file and string loading agree.",
 ["inputs","fault_sequences"],"all tables up to two entries with names, values and statuses over an alphabet of significant characters, all truncations and single-character corruptions of exported documents",
 "one benign document is loaded; no export is ever read back with special characters",
 [L],[("LoadXMLString/LoadXMLFile","v2/xlanguage.go"),("GetXML","v2/xlanguage.go")],["GetName, GetLanguage, GetEntries, GetStatus after the load"])
p("C16","Language tables behave as maps of texts and statuses",
 "After any sequence of operations an entry reads as its latest value and an absent one as empty, its status likewise and independently of the text, deleting removes both, and name and language are what was last set or loaded. The list of entries handed out is a copy: changing it or the table never affects the other. Printed forms and XML list every entry exactly once, always in the same order.",
 ["histories"],"all operation sequences up to a length bound over two names, mixing loads, sets, statuses, deletes and copies, with both map iteration orders",
 "single operations are tested",
 [L],[("Set/Get/Del/SetStatus/GetStatus/GetEntries","v2/xlanguage.go")],["all readers after each step"])
p("C17","Concurrent use of a language table is race-free and atomic",
 "Whatever operations goroutines run on one shared language table, including loading into it, renaming it and exporting it, there is no data race, panic or deadlock under any interleaving, and each single read, write, delete, export or XML load takes effect at one moment between its call and return. The name and language of a table are read and changed through its methods as safely as the entries.",
 ["schedules","programs"],"all interleavings of all pairs of short programs over all table operations",
 "the tests never share a table between goroutines under control",
 [L],[("RW mutex","v2/xlanguage.go: XLanguage.mutex")],["results, race reports, final content"])

T="v2/xtemplate.go"
p("C18","Template text outside tags is reproduced verbatim and tags are recognised",
 "Any text without recognised tags comes out of a template unchanged, byte for byte; comments vanish with one directly following line break (LF or CRLF); sub-template definitions vanish from the output with the line break after each of their marks; everything that does not form a complete tag is plain text. A text whose sub-template marks do not pair up is refused with an error and no template, and a refused load leaves a template that was already loaded rendering as before. Loading from a file equals loading its content.",
 ["inputs","fault_sequences"],"all token strings up to a length bound over the tag delimiters, names, line breaks and plain characters",
 "some sample templates are tested; delimiter combinations and unbalanced nesting are not",
 [T],[("compile","v2/xtemplate.go: XTemplate.compile")],["Execute, error of the constructors"])
p("C19","Template elements render exactly the documented result for any data",
 "For any template and data, fields render the addressed value searched from the innermost level outwards (missing or nil as empty), language elements the entry of the attached language table, references the named sub-template (optionally one level down, or chosen by a field value with fallback to the prefix), loops one rendering per element choosing key, first, last, even or base variant in that priority with a 1-based counter, and once 'none' (or, lacking that, the base) when empty or missing, and conditions the sub-template, or its variant for the value, when the field has a value, otherwise only the 'none' variant. The output is the concatenation of the parts in template order. Loops and conditions leave the level of data unchanged for what follows.",
 ["inputs","programs"],"all templates up to a size bound from the element grammar, crossed with all data trees up to depth 3 over a few names and value kinds",
 "a set of sample templates with fixed outputs is tested; combinations are not",
 [T],[("injector","v2/xtemplate.go: XTemplate.injector")],["Execute output"])
p("C20","Sub-templates are found by scope: own level first, then enclosing levels",
 "A sub-template is visible by each of its names at the level where it is defined and in everything nested below, and nowhere else; the nearest definition wins, the last of two definitions of the same name at one level wins, and several names separated by '|' denote the same content. The same holds when sub-templates are added or fetched by program.",
 ["programs","inputs"],"all nesting structures with up to four definitions over two names, crossed with references from every level",
 "the tests use one nested sample",
 [T],[("GetTemplate/AddTemplate","v2/xtemplate.go"),("second pass of compile","v2/xtemplate.go")],["Execute output, GetTemplate"])
p("C21","Rendering never changes template or data, and never panics",
 "Executing a template changes neither the template nor the data passed to it, so executing again, or after other data, gives the same text for the same data. Any compiled template can be executed with any data, including none, empty, nil values, and values of unexpected kinds, without panic; an empty template without content says so instead of failing.",
 ["inputs","histories"],"all templates up to a size bound crossed with all small data including none, with deep comparison of data and template before and after, in sequences of executions",
 "tests execute once and compare only the text",
 [T],[("Execute/injector","v2/xtemplate.go")],["Execute output, deep content of data and template"])
p("C22","A cloned template renders the same and is independent of its source",
 "A clone renders the same output as its source for the same data, with sub-templates at all levels resolving names inside the clone. Cloning changes nothing in the source, and adding, replacing or reloading content on either side afterwards never changes what the other renders.",
 ["programs","histories"],"all templates up to a size bound with nested sub-templates, and every single modification of either side after cloning",
 "one clone is compared once in the tests",
 [T],[("Clone","v2/xtemplate.go: XTemplate.Clone")],["Execute output of both sides, GetTemplate chains"])
p("C23","One compiled template can be executed and cloned concurrently",
 "Goroutines executing and cloning one compiled template at the same time, with separate data, with shared data and a shared language table, get the same text as alone, with no data race, panic or deadlock under any interleaving.",
 ["schedules","programs"],"all pairs of execute/clone programs over templates covering all elements, all interleavings at lock operations with happens-before race detection on each",
 "no test executes a template from two goroutines",
 [T],[("read-only injector","v2/xtemplate.go"),("Clone","v2/xtemplate.go"),("language lookup","v2/xlanguage.go: Get")],["Execute output, race reports"])

p("C24","Legacy (v1) cache: values, expiry, recency and limits hold over histories",
 "In the version 1 package, after any sequence of cache operations and passing of time, reading a key returns the latest value written unless it was removed, evicted, expired or refused, with the 'invalid' flag as documented. The number of entries never exceeds a configured maximum, evictions take the least recently used first, and cleaning and verification report the number of entries that left.",
 ["histories","configurations"],"all operation sequences over a small key set with clock advances for all combinations of maximum, expiration and validator",
 "the tests run a few fixed sequences",
 ["xcache.go"],[("Get/Set/Clean/Verify/Flush","xcache.go")],["results of all operations"])
p("C25","Legacy (v1) cache: concurrent use is race-free and atomic",
 "Whatever operations goroutines run on one shared version 1 cache and however they interleave, there is no data race, panic or deadlock, the maximum and the entry count stay consistent, and results are those of some one-at-a-time order respecting real time.",
 ["schedules","programs"],"all interleavings of all pairs of short programs over the cache operations",
 "the tests use uncontrolled goroutines",
 ["xcache.go"],[("mutex","xcache.go: XCache.mutex")],["results, race reports, state after the join"])
p("C26","Legacy (v1) datasets and collections: lookups, conversions, lists, clones",
 "In the version 1 package datasets behave as maps with '>' path lookup and the documented typed conversions, collections as double-ended lists with last-entry-first search, clones are equal and independent at every depth, printed forms list every key or element once and always alike, and no read ever panics or changes data.",
 ["inputs","histories"],"all small trees and paths, all kinds and typed readers, all short list histories, all nestings and single mutations after a clone",
 "single samples are tested",
 ["xdataset.go"],[("XDataset, XDatasetCollection","xdataset.go")],["results of all operations"])
p("C27","Legacy (v1) language tables: loading and map behaviour",
 "In the version 1 package text loading gives exactly the key=value lines and XML loading exactly the entries of the document, bad XML or unreadable files give an error and change nothing, and entries read as last set or loaded, absent ones as empty.",
 ["inputs","histories","fault_sequences"],"all texts up to a length bound over the significant characters, all single corruptions of an XML document, all short operation sequences",
 "one sample file each is tested",
 ["xlanguage.go"],[("LoadString/LoadXMLString/Set/Get/Del","xlanguage.go")],["Get, Entries"])
p("C28","Legacy (v1) templates: parsing and rendering",
 "In the version 1 package text outside tags is reproduced verbatim, unpaired sub-template marks are refused, and fields, language elements, references, loops and conditions render by the version 1 rules for any data, without changing data or template and without panic even when there is no data.",
 ["inputs","programs"],"all token strings and all grammar templates up to a size bound crossed with small data trees",
 "sample templates are tested",
 ["xtemplate.go"],[("compile/injector","xtemplate.go")],["Execute output, errors"])
p("C29","Loading from files equals loading their content and releases the file",
 "In both versions, loading a language table (text or XML) or a template from a file gives exactly what loading the content of the file gives, for content of any size; a file that is missing, is a directory or cannot be read for another reason gives an error, no new object, and leaves an existing one unchanged. Whatever happens no file stays open afterwards, the file itself is not changed, and later loads work as if nothing had happened.",
 ["fault_sequences","inputs"],"all short sequences of loads over all states of the file (good, bad, empty, missing, directory, link, broken link, unusable name), all kinds of objects, contents of all sizes around buffer boundaries",
 "tests load one existing file of each kind and never look at what stays open",
 ["v2/xlanguage.go","v2/xtemplate.go","xlanguage.go","xtemplate.go"],[("LoadFile, LoadXMLFile and the constructors from files","v2/xlanguage.go"),("LoadFile","v2/xtemplate.go")],["errors, loaded content, open files"])
p("C30","Rendering shared thread-safe data while it changes",
 "A template may be rendered with a thread-safe dataset (with nested thread-safe datasets and collections and a language table) while other goroutines change that data or the table: in no interleaving is there a data race, a panic or a deadlock. A rendering that depends on one value shows that value as it was at one moment during the rendering; a loop shows only elements that were in the collection, each through a complete sub-template, never an empty or missing element, however the collection grows, shrinks or is replaced meanwhile.",
 ["schedules","histories"],"all interleavings of renderings with one and two changes, for templates over fields, paths, language entries, conditions, references, loops, nested loops and dumps",
 "tests render with data nobody changes; the windows between counting and reading a collection are a few instructions wide",
 ["v2/xtemplate.go","v2/xdatasetts.go","v2/xdatasetcollectionts.go","v2/xlanguage.go"],[("Execute/injector","v2/xtemplate.go"),("Get/Count","v2/xdatasetcollectionts.go")],["Execute output; no panic, race or deadlock"])
p("C31","Version 1 objects can be read and rendered by several goroutines",
 "In version 1, rendering a template, printing it, and reading, printing or cloning the data and the language table only read: any number of goroutines may do it at the same time on the same template, the same data and the same table without a data race. Each gets exactly what it would get alone.",
 ["schedules"],"all pairs and triples of reading operations on shared version 1 objects, all interleavings",
 "tests use every object from one goroutine",
 ["xtemplate.go","xdataset.go","xlanguage.go"],[("Execute/injector","xtemplate.go"),("Get/Clone/String","xdataset.go")],["Execute output; no race"])
p("C32","Printed forms of a template show every element and are repeatable",
 "In both versions the printed forms of a compiled template show the content of every element of its top level, as often as it occurs; templates with different elements print differently. Printing changes nothing and gives the same text every time: again, for the same text compiled again, after executions, and for a clone.",
 ["inputs","histories"],"all texts of a few pieces of every kind of element",
 "tests print one template",
 ["v2/xtemplate.go","xtemplate.go"],[("String/GoString","v2/xtemplate.go")],["String and GoString results"])
p("C33","Objects made separately share nothing",
 "In both versions, goroutines that each make and use caches, datasets, collections, language tables and templates of their own never disturb each other: no data race, and each gets exactly what it would get alone, also when the objects are made from the same text, document or map, or bear the same name. Of two objects made in the same way, changing one never changes what the other shows, nor what an object made later in that way shows.",
 ["schedules","histories"],"all pairs of tasks covering every kind of object in two goroutines, all interleavings within the preemption bound, triples of equal tasks; all pairs of changes of one of two objects made alike",
 "tests make their objects one after the other and never two at the same time",
 ["v2/xcache.go","v2/xdataset.go","v2/xlanguage.go","v2/xtemplate.go","xcache.go","xdataset.go","xlanguage.go","xtemplate.go"],[("constructors, compile, loads","all files")],["results of the tasks, race reports, what the untouched object shows"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
