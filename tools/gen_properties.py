#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The text of the properties lives here."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text},
         "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = list(observe)
    P.append(d)

# ---------------------------------------------------------------- the MMV file
p("C01", "The file is committed only after everything else in it is written",
  "While a client starts, the second generation number of the mmv file stays zero, and it is set to the first generation number as the very last write: every other write that starting makes, in whichever goroutine, happens before it. "
  "So a reader that finds the two generation numbers equal and nonzero finds a complete file.",
  ["schedules", "crash_points", "inputs"],
  "for every registry content, every scheduling of the goroutines that write the file, and every point at which a reader looks or the process dies",
  "the tests read the file after Start returned, in one schedule; a write that is not ordered before the commit shows up only when a goroutine is late",
  ["client.go"],
  [("WaitGroup joins and the header channels before the final generation write", "client.go: start, writeHeaderBlock"),
   ("every writer goroutine is joined by its parent", "client.go: writeTocBlock, writeInstanceDomains, writeMetrics")],
  [("generation2", "commit marker, offset 16 of the file", "client.go: writeHeaderBlock")],
  ["bytes 8..24 of the mmv file"])

p("C02", "Every record has the layout of the MMV format",
  "Every header, table of contents entry, instance domain, instance, metric and value record that a client writes has each field of the MMV version 1 or 2 format at its offset, with its width, and holding the property of the registered object that the format assigns to it. "
  "References between records are the file offsets of the records they refer to.",
  ["inputs", "configurations"],
  "for every set of registered metrics and instance domains, in both versions of the format",
  "the tests compare a few metrics through mmvdump; fields they do not look at, and combinations of version, type, indom and description they do not build, are not covered",
  ["client.go", "mmvdump/pcp.go"],
  [("writers of the records", "client.go: writeHeaderBlock, writeSingleToc, writeInstanceDomain, writeInstance, writeMetricDesc, writeSingletonMetric, writeInstanceMetric, writeValue")],
  observe=["the bytes of the mmv file"])

p("C03", "Sections are disjoint, described by the TOC, and fill the file exactly",
  "The header, table of contents, instance domain, instance, metric, value and string sections follow each other without overlap, each holds exactly as many records as its table of contents entry says at the offset it says, and the length of the file is exactly the end of the last one. "
  "The number of table of contents entries in the header is the number of entries written, and only sections that have records need one.",
  ["inputs", "configurations"],
  "for every number of instance domains, instances, metrics, values and strings, including none, in both versions",
  "the tests sample a handful of registry shapes; an off by one in a section that is empty in them goes unnoticed",
  ["client.go"],
  [("length of the file", "client.go: Length, tocCount"), ("section offsets", "client.go: start"), ("entries", "client.go: writeTocBlock")],
  [("section offsets", "where each section begins", "registry.go: PCPRegistry offsets")],
  ["Length()", "the table of contents of the mmv file"])

p("C04", "The registry's counts are what starting a client writes",
  "The instance, value and string counts of a registry are exactly the numbers of instance, value and string records that starting a client writes for what is registered, for every type of metric, with and without descriptions, in both versions of the format. "
  "No two records are written to the same slot, and none outside of its section.",
  ["inputs", "histories", "schedules"],
  "for every history of registrations and every order in which the goroutines take slots",
  "accounting and consumption are in different files and are only compared by the tests for the few metrics they register",
  ["registry.go", "client.go"],
  [("accounting", "registry.go: AddMetric, AddInstanceDomain, StringCount"), ("consumption", "client.go: offset channels")],
  [("counts", "numbers of records", "registry.go: PCPRegistry")],
  ["ValuesCount()", "StringCount()", "InstanceCount()"])

p("C05", "Version 2 of the format is used exactly when a name needs it",
  "A client writes version 2 of the MMV format if a registered metric or instance has a name longer than 63 bytes, and version 1 otherwise. "
  "The decision does not depend on the order of the registrations or on how the metric was registered, and all parts of the file agree on it.",
  ["inputs", "histories"],
  "for every history of registrations and every length of name",
  "the tests register one long name; the boundary, and instances that come in with a metric, are not covered",
  ["registry.go", "client.go"],
  [("sticky flag set by every registration path", "registry.go: AddMetric, AddInstanceDomain")],
  [("version2", "a name does not fit in version 1", "registry.go")],
  ["version field at offset 4 of the file"])

p("C06", "Updating a metric writes its own slot and nothing else",
  "While a client runs, updating a value of a registered metric or instance writes that value's own slot in the file, with the width of the metric's type, and no other byte. "
  "A string value is written to the string block its value record refers to, which is cleared first, so that nothing of a longer previous string remains.",
  ["inputs", "histories"],
  "for every metric, instance and history of updates",
  "the tests update a few metrics and look at the updated value, not at what else was written",
  ["client.go", "metrics.go"],
  [("update closures carry the slot's offset", "metrics.go: newupdateClosure; client.go: writeValue")],
  [("update", "writes a value to its slot", "metrics.go: pcpSingletonMetric, instanceValue")],
  ["the value and string sections of the file"])

p("C07", "Names, descriptions and string values are bounded and NUL terminated",
  "Everything a client writes to a string block is at most 255 bytes long, and a name written into a version 1 record at most 63 bytes, so that it is NUL terminated within its block and never runs into the next record. "
  "Longer metric names, instance names, descriptions and string values are rejected with an error where they are passed in.",
  ["inputs"],
  "for every metric name, instance name, description and string value passed to any constructor or setter",
  "the tests use short strings; only lengths at the boundary break it",
  ["metrics.go", "instance_domain.go", "client.go"],
  [("length checks in the constructors and in the type compatibility check", "metrics.go: newpcpMetricDesc, IsCompatible; instance_domain.go: NewPCPInstanceDomain")],
  observe=["the string section", "returned errors"])

p("C08", "Setting a value changes memory and file together, or neither",
  "When setting, incrementing or decrementing a metric or one of its instances succeeds, the value that reads return and the value in the file of a running client are both the new value; when it fails, neither has changed. "
  "This holds for every type of metric.",
  ["inputs", "histories"],
  "for every value passed, every state of the metric, and every outcome of the write",
  "tests exercise the successful path with values of the right type",
  ["metrics.go"],
  [("update before store, store only on success", "metrics.go: pcpSingletonMetric.set, pcpInstanceMetric.setInstance")],
  observe=["Val, ValInstance", "value slots"])

# ---------------------------------------------------------------- metrics
p("C09", "Type compatibility is exactly the documented table",
  "A value is compatible with a metric type exactly if it has the Go type of the metric type, or is an int, an uint for the unsigned types, or a float64 whose value the metric type can represent, or is a string that fits a string block; nothing else is. "
  "A compatible value is stored as the Go type of the metric type, with the same numeric value.",
  ["inputs"],
  "for every metric type and every Go value",
  "the tests try a few values per type; boundaries of each type are not covered for all pairs",
  ["metrics.go"],
  [("compatibility", "metrics.go: IsCompatible"), ("conversion", "metrics.go: resolve")],
  observe=["IsCompatible", "errors of constructors and setters"])

p("C10", "A metric never holds a value that is not of its type",
  "Every value that a metric or an instance of a metric holds has passed the type compatibility check and has been converted to the Go type of the metric's type, however it got there. "
  "Counters and counter vectors always hold an int64, and gauges, gauge vectors, timers and histograms a float64.",
  ["inputs", "histories"],
  "for every constructor, setter and history of calls",
  "it is an invariant over all histories; tests look at single calls",
  ["metrics.go"],
  [("single point of entry for values", "metrics.go: set, setInstance, newpcpSingletonMetric, newpcpInstanceMetric")],
  observe=["Val, ValInstance"])

p("C11", "Counters never go backwards",
  "No operation on a counter or on an instance of a counter vector makes its value smaller: setting a smaller value, a negative increment, and an increment past the range of the value are errors that leave the value as it is. "
  "Successful increments add exactly what was passed, and what does none of this and names an instance does not fail on a counter that is not connected to a file.",
  ["inputs", "histories"],
  "for every value of the counter and every argument, including the extremes of int64",
  "tests increment by small numbers from small numbers",
  ["metrics.go"],
  [("guards in Set and Inc", "metrics.go: PCPCounter, PCPCounterVector")],
  observe=["Val"])

p("C12", "Concurrent use of a metric is free of data races",
  "The value of a metric, the state of a timer or histogram, and the connection of a metric to the file are only read or written while holding the lock of that metric, by its methods as well as by a client that starts or stops. "
  "So concurrent use of one metric by any number of goroutines is free of data races, and read-modify-write operations are atomic.",
  ["schedules"],
  "for every pair of operations on a metric, in every interleaving, including with a client starting or stopping",
  "a race needs the right interleaving; the tests hardly use metrics concurrently",
  ["metrics.go", "client.go"],
  [("a mutex per metric", "metrics.go: all PCP metric types"), ("the client takes it when it publishes or detaches a value", "client.go: storage, stop")],
  [("mutex", "guards value, update closure and extra state", "metrics.go")])

p("C13", "Timers follow their state machine and accumulate in their unit",
  "Starting a running timer, stopping a stopped one and resetting a running one are errors that change nothing. "
  "Stopping adds the time since the matching start, in the unit of the timer, to the value, makes the timer startable again and returns the new value; resetting sets the value to zero.",
  ["inputs", "histories"],
  "for every history of operations and every time unit",
  "the tests use one or two units and histories, and cannot tell unit factors apart within their tolerance",
  ["metrics.go"],
  [("started flag", "metrics.go: PCPTimer")],
  [("started, since", "running, and since when", "metrics.go: PCPTimer")],
  ["Start, Stop, Reset, Val"])

p("C14", "A histogram publishes the statistics of what was recorded",
  "After every successful recording, the min, max, mean, variance and standard_deviation of a histogram, in memory and in its instances, are the statistics of the underlying distribution after that recording, each under its own name; a recording that fails changes none. "
  "The bounds of the distribution are the low and high passed to the constructor, limited to the supported range, and are what Low and High return.",
  ["inputs", "histories"],
  "for every history of recordings and every bound",
  "tests record a few values and check some of the statistics",
  ["metrics.go", "speed.go"],
  [("update after recording", "metrics.go: PCPHistogram.update"), ("normalisation of bounds", "metrics.go: normalize, NewPCPHistogram")],
  observe=["Min, Max, Mean, Variance, StandardDeviation, Low, High, Percentile, Buckets", "instances of the metric"])

p("C15", "Must variants do the same and panic exactly on error",
  "Every Must method has exactly the effects and results of the method it is named after, and panics exactly when that one returns an error. "
  "The same holds for the convenience operations that are defined through them: Up, UpAll, SetAll, IncAll, DecAll, Dec.",
  ["inputs", "histories"],
  "for every Must method, its arguments and the state it is called in",
  "the tests call Must methods where they succeed",
  ["metrics.go", "client.go", "bytewriter/bytewriter.go"],
  [("delegation", "MustX calls X and panics on its error")],
  observe=["panics and effects of the Must methods"])

p("C16", "Units carry the scales and dimensions they were built from",
  "The PMAPI representation of a unit holds, for each of space, time and count, the scale and the dimension it was last given, in the bit fields that PCP assigns to them, and zero for what it was not given. "
  "The accessors return exactly those, and a dimension outside of -8..7 panics.",
  ["inputs"],
  "for every sequence of Space, Time and Count with every unit and every dimension",
  "tests build a few composite units with positive dimensions",
  ["metrics.go", "mmvdump/pcp.go"],
  [("bit fields", "metrics.go: metricUnit"), ("decoding", "mmvdump/pcp.go: Unit")],
  observe=["PMAPI()", "SpaceDim, SpaceScale, ..."])

p("C17", "Enumerations have the values of the PCP ABI on both sides",
  "Metric types, semantics, units, flags and table of contents types have the numeric values that PCP defines, the same in the client and in mmvdump, and the record lengths on both sides are equal. "
  "Each value of an enumeration of the client prints as its own name.",
  ["programs"],
  "for every constant of every enumeration",
  "the golden files contain only some of the values",
  ["metrics.go", "client.go", "mmvdump/pcp.go", "metrictype_string.go", "metricsemantics_string.go", "spaceunit_string.go", "timeunit_string.go", "countunit_string.go", "mmvflag_string.go", "mmvdump/type_string.go", "mmvdump/toctype_string.go"],
  [("constants", "metrics.go, client.go, mmvdump/pcp.go"), ("stringer tables", "*_string.go")])

p("C18", "Constructors validate their arguments and keep what they were given",
  "Constructing a metric or an instance domain fails if the name is empty, if more than two descriptions are passed, or if the values passed are not exactly one compatible value per instance of the instance domain. "
  "On success the object has exactly the name, type, semantics, unit, instances, descriptions and initial values it was given; counters, gauges, timers and histograms have the type and semantics of their kind.",
  ["inputs"],
  "for every constructor and every argument",
  "tests build valid objects and a few invalid ones",
  ["metrics.go", "instance_domain.go", "instance.go"],
  [("constructors", "metrics.go: New*, newpcpMetricDesc, newpcpInstanceMetric; instance_domain.go: NewPCPInstanceDomain")],
  observe=["results of the constructors and accessors"])

# ---------------------------------------------------------------- registry and client
p("C19", "Names are unique in a registry, under concurrent registration too",
  "At most one metric and one instance domain of a given name is ever registered in a registry: registering a second one is an error, and the check and the insertion are one atomic step. "
  "A metric is only accepted together with an instance domain of the same name if that has the same instances, and only if a client can write its type.",
  ["schedules", "inputs", "histories"],
  "for every interleaving of registrations through every entry point",
  "the window between check and insertion is a few instructions wide, and no test registers concurrently",
  ["registry.go"],
  [("one critical section for check and insertion", "registry.go: AddMetric, AddInstanceDomain")],
  [("metrics, instanceDomains", "what is registered", "registry.go: PCPRegistry")],
  ["errors of Register, RegisterIndom, RegisterString", "HasMetric, HasInstanceDomain"])

p("C20", "A failed registration leaves the registry as it was",
  "A registration that returns an error, through any entry point, has not changed the registry: not its metrics, its instance domains, its counts, or the version of the format that will be written. "
  "A successful one adds exactly the metric, and its instance domain if that was not registered.",
  ["inputs", "histories"],
  "for every entry point, argument and state of the registry",
  "tests look at the error, and at the success path",
  ["registry.go"],
  [("all checks before the first change", "registry.go: AddMetric, AddInstanceDomain, addInstanceMetricByString")],
  observe=["counts and Has methods of the registry"])

p("C21", "A client maps at most one file at a time and freezes its registry",
  "Starting a client whose registry is already mapped, stopping one that is not running, changing the flag of a running one, and adding to the registry while it is mapped are errors without effect. "
  "The registry is frozen before the length of the file is taken from it until the mapping is gone, and is not left frozen when starting fails.",
  ["histories", "schedules", "fault_sequences"],
  "for every history of Start, Stop, SetFlag and registrations, on any number of clients, with failures to create the file",
  "the tests start and stop a client once, in order",
  ["client.go", "registry.go"],
  [("mapped flag under the registry lock", "registry.go: freeze, unfreeze"), ("the client's writer", "client.go: Start, Stop")],
  [("mapped", "a mapping of the registry is active", "registry.go")],
  ["errors of Start, Stop, SetFlag, Register"])

p("C22", "No metric writes to a file after its client has stopped",
  "When a client stops, every value of every registered metric is disconnected from the file, under the lock of its metric, before the file is unmapped. "
  "Updating a metric during or after Stop never touches unmapped memory, and updates memory only after it.",
  ["schedules", "histories"],
  "for every type of metric and every interleaving of updates with Stop",
  "the failure is a fault on unmapped memory that needs an update after Stop, which no test makes",
  ["client.go", "metrics.go"],
  [("detaching before unmapping", "client.go: stop, Stop")],
  [("update", "nil when not connected to a file", "metrics.go")])

p("C23", "Registries, clients and the dump reader are free of data races",
  "All mutable state of a registry or a client that its exported methods can reach concurrently is accessed under one common lock, and what the goroutines of a starting client or of the dump reader share is accessed under a lock, or ordered by their channels and joins. ",
  ["schedules"],
  "for every pair of concurrent calls of exported methods, and every interleaving of the goroutines they start",
  "a race needs the right interleaving; tests use registries and clients from one goroutine",
  ["registry.go", "client.go", "mmvdump/mmvdump.go"],
  [("registry lock, client mutex, start lock", "registry.go, client.go"), ("mutexes of the readers", "mmvdump/mmvdump.go")])

p("C24", "Locks are always released and never taken in a deadlocking order",
  "Every lock an operation takes is released by the time it returns or panics out of it with a Must variant, no operation takes a lock it already holds, and all operations take locks that are held together in one order.",
  ["schedules", "inputs"],
  "for every operation, every path through it, and every set of concurrent operations",
  "an unreleased lock on an error path shows only when that path was taken and the lock is needed again",
  ["metrics.go", "registry.go", "client.go", "mmvdump/mmvdump.go"],
  [("defer unlock", "all methods that lock")])

p("C25", "Starting a client and dumping a file always terminate",
  "Starting a client and dumping a file wait for exactly the goroutines they start and the messages these send: every wait group is given exactly as many completions as it waits for, on every path, and every value taken from an offset channel is put back. "
  "So neither blocks forever nor panics in its synchronisation, whatever is registered or in the file.",
  ["schedules", "inputs"],
  "for every content of the registry and every file, in every schedule",
  "the tests register kinds of metrics and read files for which the counts agree",
  ["client.go", "mmvdump/mmvdump.go"],
  [("WaitGroups", "client.go: start and below; mmvdump/mmvdump.go: readItems, readComponents"), ("token channels", "client.go")])

p("C26", "A client's file is always directly in the mmv directory",
  "The file of a client is the entry with the client's name, directly in the mmv directory below the PCP temporary directory, or below the system's one if that is not configured. "
  "A name that would denote anything else is rejected when the client is created.",
  ["inputs", "configurations"],
  "for every name and configuration",
  "tests try one name with a separator",
  ["client.go"],
  [("validation of the name", "client.go: mmvFileLocation")],
  observe=["location of the mmv file", "error of NewPCPClient"])

p("C27", "Identifiers depend on the name only and fit their PCP bit fields",
  "The identifier of a metric, instance, instance domain or client is a function of its name alone, the same in every process: the 32 bit FNV-1a hash of the name, reduced to 10 bits for a metric, 22 for an instance domain and 12 for the cluster of a client, and not reduced for an instance.",
  ["inputs"],
  "for every name",
  "tests compare a few identifiers with each other",
  ["speed.go", "metrics.go", "instance.go", "instance_domain.go", "client.go"],
  [("hash", "speed.go: hash and its callers")],
  observe=["ID()", "identifiers in the file"])

# ---------------------------------------------------------------- bytewriter
p("C28", "A byte writer writes exactly the encoding in bounds, or nothing",
  "Writing a value at an offset stores exactly the little endian encoding of the value, or the bytes of the string, from that offset on and returns the offset behind it; if that does not lie within the buffer, for whatever offset, it returns an error and changes no byte. "
  "No write panics or touches a byte outside of its range.",
  ["inputs"],
  "for every value, every offset including negative and huge ones, and every size of buffer",
  "tests write at a few offsets in and just out of the buffer",
  ["bytewriter/bytewriter.go"],
  [("bounds check", "bytewriter/bytewriter.go: Write")],
  observe=["Bytes(), returned offsets and errors"])

p("C29", "Creating and removing a mapped file leaks and clobbers nothing",
  "Creating a mapped writer never reuses an existing file, gives the file exactly the requested size, maps it read-write and shared, and closes it again on every failure. "
  "Unmapping releases mapping and file and leaves the writer without a buffer, and deletes the file only if asked to.",
  ["fault_sequences", "inputs"],
  "for every outcome of every system call involved",
  "tests do not make system calls fail",
  ["bytewriter/memorymappedwriter.go"],
  [("creation", "bytewriter/memorymappedwriter.go: NewMemoryMappedWriter"), ("release", "bytewriter/memorymappedwriter.go: Unmap")],
  observe=["open files, the file system, Bytes()"])

# ---------------------------------------------------------------- mmvdump
p("C30", "Dumping arbitrary bytes never reads outside of them or panics",
  "For every sequence of bytes, Dump returns tables whose entries all lie completely within the bytes, or an error: it does not panic, does not read out of bounds, and does not allocate or loop for more records than the bytes have room for.",
  ["inputs"],
  "for every byte sequence, including every version, count and offset in it",
  "tests read three well formed files",
  ["mmvdump/mmvdump.go"],
  [("bounds checks before every cast", "mmvdump/mmvdump.go: read*")],
  observe=["Dump"])

p("C31", "Dump accepts only committed files of a version it knows",
  "Dump returns an error for data without the MMV tag, with a version other than 1 and 2, with different generation numbers, or with an unknown or repeated table of contents entry, and if any record of any section cannot be read. "
  "Otherwise each of the tables it returns has exactly the records of its own section, by offset, at the stride of the version.",
  ["inputs", "schedules"],
  "for every byte sequence and every schedule of the readers",
  "tests read well formed files; an error of one of the concurrent readers is never provoked",
  ["mmvdump/mmvdump.go"],
  [("header checks", "mmvdump/mmvdump.go: readHeader"), ("error collection", "mmvdump/mmvdump.go: readItems, Dump")],
  observe=["Dump"])

p("C32", "Printing a dump reports dangling references and write errors",
  "Write does not panic on the result of any successful Dump: a reference to a record that is not in the tables is an error. "
  "It returns an error whenever a write to its writer fails, and prints every record of every section otherwise, with its name, its texts and its value.",
  ["inputs", "fault_sequences"],
  "for every dump, every dangling reference in it, and every failing write",
  "tests print well formed files to a buffer",
  ["mmvdump/writer.go"],
  [("lookups checked before use", "mmvdump/writer.go: write*")],
  observe=["Write"])

p("C33", "The dump types decode exactly the MMV record layout",
  "The types that mmvdump maps onto the file have every field of the MMV format at its offset and with its size, with no padding, and their accessors return the field they are named after. "
  "FixedVal decodes a value as the Go type that its metric type stands for, and rejects all others.",
  ["inputs", "programs"],
  "for every record type, field, metric type and bit pattern",
  "the golden files do not exercise all fields and types",
  ["mmvdump/pcp.go", "mmvdump/mmvdump.go"],
  [("struct layout", "mmvdump/pcp.go"), ("FixedVal", "mmvdump/mmvdump.go")],
  observe=["accessors", "FixedVal"])

# ---------------------------------------------------------------- configuration and errors
p("C34", "The configuration comes from PCP_DIR, PCP_CONF and uncommented settings",
  "The PCP root is PCP_DIR if that is set and / otherwise, the configuration file is PCP_CONF if that is set and etc/pcp.conf below the root otherwise, and a setting is exactly a line that starts with an upper case name followed by = and its value. "
  "The file is closed again, and failing to open or read it is reported.",
  ["configurations", "fault_sequences"],
  "for every environment and content of the file",
  "tests set the variables one at a time, and never fail a read",
  ["config.go"],
  [("initConfig", "config.go")],
  observe=["rootPath, confPath, config"])

p("C35", "No failure is dropped",
  "No operation of the library reports success after a step of it failed: where a call that an operation makes returns an error, the operation returns an error itself (the same one, a wrapped one or another one), panics if it is a Must variant or has no error to return, or reports it on the standard error stream if it is part of the initialization of the package. "
  "What a scanner stopped at is asked for. Exempt are: asking whether a file exists, closing a file that was only read, and printing to the standard streams.",
  ["fault_sequences", "inputs"],
  "for every call in the library that can fail and every path after it",
  "tests hardly provoke failures",
  ["client.go", "registry.go", "metrics.go", "instance_domain.go", "config.go", "speed.go", "bytewriter/bytewriter.go", "bytewriter/memorymappedwriter.go", "mmvdump/mmvdump.go", "mmvdump/writer.go", "mmvdump/cmd/mmvdump/main.go"],
  [("error returns", "everywhere")])

p("C41", "Metric strings are read by their grammar",
  "A string that registers a metric is one or more names joined by dots, optionally followed by a bracketed list and more names that each follow a dot; a name is one or more letters, digits and underscores (of any script), and a list is one or more names separated by a comma and at most one white space character. "
  "A string that is anything else registers nothing and is an error. Without a list the metric is named by the whole string and has no instance domain; with a list its name is the string without the brackets and what is between them, its instance domain is named by what is before the list, and the instances of that are the names in the list (an instance domain of that name that is registered already is only used if it has them). "
  "The metric is made from the value, type, semantics and unit that are passed.",
  ["inputs"], "for every string",
  "tests try a table of a few strings, all within the grammar", ["registry.go", "client.go"], [("regular expressions and submatches", "registry.go: parseString"), ("registration", "registry.go: AddMetricByString")])

p("C42", "Asking answers from the current state and changes nothing",
  "An operation that only asks (for the names, counts, instances, descriptions, types, units, semantics, domains, values, statistics, percentiles or buckets of registries, clients, instance domains and metrics) changes nothing, always returns, and answers from what the object holds at that time: "
  "a registry has exactly the metrics and instance domains that were registered with it, and as many as it counts; a domain has exactly the instances that it lists once each and counts; a metric tells the name, identifier, type, semantics, unit, texts and domain it was made with; the percentile is the one of the recorded values at the percentage that is asked for, and the buckets are those of the recorded values with their bounds and counts in order. A new registry is empty.",
  ["inputs", "histories"], "for every state and argument",
  "tests ask a few objects right after they were made", ["registry.go", "metrics.go", "instance_domain.go", "client.go"], [("queries", "exported methods of PCPRegistry, PCPClient, PCPInstanceDomain and the metrics")])

p("C43", "Units and types print what they hold",
  "The text of a unit of the client names, in the order space, time, count, each dimension that is not zero, once, as the name of its scale, ^ and the dimension, and nothing else. "
  "The text of a unit that the dump reader prints names first the positive dimensions in that order, and then, behind a slash, the negative ones, each with the abbreviation of its scale and, unless it is 1 or -1, ^ and the dimension with its sign; a scale that does not exist is printed as invalid. "
  "Types and table of contents types of the dump reader print as their own names.",
  ["inputs"], "for every unit, of all 2^32 representations in the dump reader and of all that can be built in the client",
  "tests print a few units", ["metrics.go", "mmvdump/pcp.go", "mmvdump/type_string.go", "mmvdump/toctype_string.go"], [("texts of units", "metrics.go: metricUnit.String, mmvdump/pcp.go: Unit.String")])

# ---------------------------------------------------------------- beyond static analysis
p("C36", "Histogram statistics are within the configured precision",
  "Every statistic of a histogram differs from the exact statistic of the recorded values by no more than the configured number of significant figures allows.",
  ["inputs", "histories"], "for every history of recordings and every precision",
  "tests record a handful of values", ["metrics.go"], [("hdrhistogram", "metrics.go: PCPHistogram")])

p("C37", "Identifiers of the objects registered together are distinct",
  "No two metrics, no two instance domains, and no two instances of one instance domain that are registered in one registry have the same identifier.",
  ["inputs", "histories"], "for every set of names",
  "tests use a handful of names", ["speed.go", "registry.go"], [("hash", "speed.go: hash")])

p("C38", "A reader of the mapped file never sees a half written value",
  "A concurrent reader of the file of a running client sees, for every value, either the value before or the value after an update, never a mixture of both.",
  ["schedules"], "for every schedule of writer and reader",
  "tests read in the same goroutine", ["bytewriter/bytewriter.go"], [("Write", "bytewriter/bytewriter.go: Write copies byte by byte")])

p("C39", "Dumping a client's file gives back what was registered",
  "Dumping the file of a started client gives, for every registered metric and instance domain, its name, type, semantics, unit, descriptions, instances and current values, and nothing else.",
  ["inputs", "histories"], "for every set of registrations and history of updates",
  "tests compare a handful of registries", ["client.go", "mmvdump/mmvdump.go"], [("writer and reader", "client.go, mmvdump")])

p("C40", "A timer's value is the real time it was running",
  "The value of a timer is the total real time it was running, whatever happens to the clock of the system meanwhile.",
  ["schedules", "fault_sequences"], "for every clock adjustment",
  "tests do not change the clock", ["metrics.go"], [("time.Now", "metrics.go: PCPTimer")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        d["statement"] = d["statement"].strip()
        f.write(json.dumps(d) + "\n")
print(len(P))
