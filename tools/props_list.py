DIRECT = "The real functions are run on every point of the bounded space and compared with an independent reference; nothing is sampled. "
prop("T01", "Time buckets are the calendar periods that contain the instant",
  "Rounding an instant to an hour, day, week, month or year gives exactly the start, in UTC, of the calendar period that contains it, with weeks starting on Monday. Rounding an already rounded instant changes nothing, and a later instant never rounds to an earlier period.",
  ["inputs"], "every day of a full 400-year Gregorian cycle, at the edges of its hours, for every unit",
  "The repository's tests do not call the rounding at all; leap days, century years, week edges and sub-second parts are each wrong or right independently.",
  ["src/common/src/query.rs"], [("field-wise truncation of the instant", "src/common/src/query.rs date_trunc")],
  "exhaustive enumeration of a bounded input space on the real code against a reference calendar",
  DIRECT + "Bounds: one whole Gregorian cycle of days. Trusts the 30-line reference calendar.", ["date_trunc"])
prop("T02", "The time columns of a report tile its range exactly",
  "For every query range and interval unit, the time columns of a report are the starts of consecutive calendar periods, without gap or repetition, from the period that contains the beginning of the range to the one that contains its end. This holds for explicit, open-ended and relative ranges alike.",
  ["inputs"], "every pair of instants of a bounded window at the edges of hours, for every unit, and long month and year spans over 400 years",
  "No test asks for time columns; an off-by-one at the last period, a week or a short month shows only for particular pairs of instants.",
  ["src/common/src/query.rs", "src/common/src/event_segmentation.rs"], [("recurrence rule from truncated start to truncated end", "src/common/src/query.rs time_columns"), ("range of the request", "src/common/src/event_segmentation.rs EventSegmentationRequest::time_columns")],
  "exhaustive enumeration of a bounded input space on the real code against a reference calendar",
  DIRECT + "Ranges with end before start are outside the statement. Trusts the reference calendar.", ["time_columns", "EventSegmentationRequest::time_columns"])
prop("T03", "Relative query ranges end now and start n calendar units earlier",
  "A query over the last n hours, days, weeks, months or years covers exactly the time from n such calendar units before the current instant up to that instant, keeping the time of day and taking the last day of a month that is too short. Explicit ranges are used as given, and open-ended ranges end at the current instant.",
  ["inputs"], "every day of a 400-year cycle as the current instant, n up to 100 (quick) or 130 (thorough), every unit",
  "No test evaluates a relative range; month ends and leap years are single days among thousands.",
  ["src/common/src/query.rs"], [("calendar-relative durations", "src/common/src/query.rs QueryTime::range, TimeIntervalUnit::relative_duration")],
  "exhaustive enumeration of a bounded input space on the real code against a reference calendar",
  DIRECT + "Trusts the reference calendar.", ["QueryTime::range"])
prop("T04", "Time windows of n units have the documented length",
  "A window of n hours, days or weeks lasts exactly that long, and a window of n months or years is at least as long as any n consecutive calendar months or years; a larger n always gives a longer window. Funnel windows and segmentation windows of the same unit agree, and only a repeating segment condition has a window.",
  ["inputs"], "n up to 1200 (quick) or 20000 (thorough), every unit, every start day of a leap cycle",
  "No test computes a window; the two unit vocabularies are separate copies of the same arithmetic.",
  ["src/common/src/query.rs", "src/common/src/funnel.rs"], [("fixed durations per unit", "src/common/src/query.rs TimeIntervalUnit::duration; src/common/src/funnel.rs TimeIntervalUnitSession::duration"), ("segment window", "src/common/src/query.rs SegmentTime::try_window")],
  "exhaustive enumeration of a bounded input space on the real code against a reference calendar",
  DIRECT + "Calendar coverage is checked up to n = 600.", ["TimeIntervalUnit::duration", "TimeIntervalUnitSession::duration"])
prop("X01", "Storage and query engines agree on the column type of a property",
  "Every property data type has one column type, the same in the storage and in the query engine (decimals with 28 digits of which 16 are fractional, timestamps in milliseconds), and a column read back gives the declared type, or the element type of an array. Different data types never share a column-name prefix, and column types that no property can have are refused.",
  ["inputs"], "every property data type, scalar and array, and every precision, scale and time unit of the column types",
  "No test converts a data type; the mapping exists twice and in both directions, and each entry can be wrong alone.",
  ["src/common/src/types.rs"], [("type mappings for both engines", "src/common/src/types.rs From/TryFrom between DType and column types"), ("short names used in column names", "src/common/src/types.rs DType::short_name")],
  "exhaustive enumeration of the finite type space on the real code",
  DIRECT + "The storage engine's type enum is a stand-in with arrow2's definitions (arrow2 itself is not available offline).", ["DType conversions"])
prop("X02", "Saved query definitions reload unchanged",
  "Whatever event segmentation or funnel definition a user saves, loading it returns the same definition: the same time range, events, filters with values of the same type, segments, breakdowns and options. This includes missing values and the extremes of every value type.",
  ["inputs"], "every variant of every component of a definition, every filter value type with its extremes, and combinations of the small components",
  "The tests save one definition; each of about a hundred variants is encoded separately.",
  ["src/common/src/scalar.rs", "src/common/src/query.rs", "src/common/src/event_segmentation.rs", "src/common/src/funnel.rs"], [("filter values encoded through a mirror type", "src/common/src/scalar.rs ScalarValueRef"), ("derived encodings", "src/common/src/event_segmentation.rs, src/common/src/funnel.rs, src/common/src/query.rs")],
  "exhaustive enumeration of definitions up to a bounded size, saved and reloaded by the real code",
  DIRECT + "Both the binary encoding used by the metadata store and JSON are checked; floats with an exact short decimal form only for JSON.", ["serialisation of saved reports and bookmarks"])
prop("X03", "Partial updates keep absent, cleared and set fields apart",
  "In a partial update, a field that is absent, a field explicitly cleared and a field set to a value are always told apart, on reading, on writing and through conversions. Clearing a field that must have a value is refused.",
  ["inputs"], "every combination of absent, null and set over the field kinds that occur in update requests",
  "The tests cover three single-field cases and none of the conversions.",
  ["src/common/src/types.rs"], [("three-state optional", "src/common/src/types.rs OptionalProperty")],
  "exhaustive enumeration of the finite state space of an update on the real code",
  DIRECT, ["JSON update requests"])
MSRC = "src/metadata/src/"
MODEL = "The real code runs on an in-memory stand-in for RocksDB (pessimistic key locks, atomic commits; see DESIGN.md); every history of the stated operations up to the stated depth is run and compared, after its last step and again after reopening, with a small independent model. "
HIST = "exhaustive exploration of operation histories on the real code against a reference model"
ENT = [MSRC + x + ".rs" for x in ("events", "custom_events", "properties", "accounts", "organizations", "projects", "teams", "dashboards", "reports", "index", "metadata")]
prop("M01", "Stored entities keep what was last written, under unique names",
  "At any point of any history of creations, updates and deletions, reading an event, custom event, property, account, organization, project, team, dashboard or report by id, by its name (token, e-mail) or in a list gives exactly what the successful operations so far left, each id being given out once. Creating or renaming to a name taken in the same scope is refused and changes nothing, a freed name can be used again, and projects and organizations never see each other's entities. All of this survives reopening the store.",
  ["histories"], "every history of creations (two names, display names or tokens, two scopes), get-or-creates, renames, other updates and deletions, up to the depth that the budget allows for each kind",
  "The tests create two entities per kind and update one; name reuse, index upkeep, scope prefixes (1 and 11) and refused operations need particular sequences.",
  ENT, [("unique indices kept with each write", MSRC + "index.rs"), ("scoped keys", MSRC + "lib.rs make_data_value_key, project_ns, org_ns")], HIST,
  MODEL + "Depth 3 to 6 depending on the number of operations of the kind.", ["create, update, delete, get_by_id, get_by_name, list of every kind"])
prop("M02", "Every field of a stored entity is stored and updated faithfully",
  "Every field given when an entity is created is read back with the same value, and an update changes exactly the fields it contains, to the values it contains, including explicitly cleared ones. This survives reopening the store.",
  ["inputs", "histories"], "every field of every kind with each of its representative values at creation, and every pair of initial and updated value of every field, alone and together with another one",
  "The tests set most fields to one value; each of about a hundred fields is copied by hand through a request, a stored message and back.",
  ENT, [("hand-written encodings to stored messages", MSRC + "*.rs serialize, deserialize"), ("field-wise updates", MSRC + "*.rs update")], "exhaustive enumeration of field values and field updates on the real code against a reference model",
  MODEL + "Values per field are representative (absent, default, extreme, with separators), not all.", ["create, update, get_by_id, list"])
prop("M03", "Concurrent metadata operations act like one after the other",
  "Operations on the same or related stored things that run at the same time (creations, get-or-creates, updates, deletions, sequences, dictionary keys, user merges, membership, sessions, backups) give the results, and leave the state, of some order of them one after the other. Names and ids are never given out twice, no change is lost, and an operation refused for waiting too long leaves no trace.",
  ["schedules"], "every interleaving of two operations with at most two preemptions (quick) or four (thorough), and of three with one or two, for every pair and triple from a menu per kind of entity and several initial states",
  "The tests are single-threaded; a lost update or a duplicate name needs another thread between one read and one write.",
  ENT + [MSRC + x + ".rs" for x in ("dictionaries", "groups", "sessions", "backups")], [("key locks held to the end of a transaction", MSRC + "index.rs lock, check_insert_constraints, next_seq"), ("property caches", MSRC + "properties.rs")],
  "stateless model checking: depth-first exploration of thread schedules of the real code under a controlled scheduler, with a preemption bound",
  "The real code runs under a scheduler that stops at every store operation; each outcome must equal that of a serial order, computed by running the same code serially. The store is a stand-in with RocksDB's locking. Reads that need two steps (by name) are not among the concurrent operations.", ["all mutating operations of the metadata provider"])
prop("M04", "A crash never leaves a half-done metadata change",
  "If the process dies at any moment of a metadata operation, the state found afterwards is the one before the operation or the one after it, never something between. Doing the operation again then succeeds as if nothing had happened.",
  ["crash_points"], "every commit of every operation of the menus of M03, in every state reached by up to two other operations from several initial states",
  "No test interrupts anything; an operation that needs two commits shows nothing wrong until a crash falls between them.",
  ENT + [MSRC + x + ".rs" for x in ("dictionaries", "groups", "sessions", "backups")], [("one transaction per operation", MSRC + "*.rs db.transaction, commit")],
  "exhaustive enumeration of crash points over operation histories of the real code",
  "The store applies a commit atomically, as RocksDB does, so a crash can only fall between commits; all of these are enumerated. States are compared through the public reads after reopening.", ["all mutating operations of the metadata provider"])
prop("M05", "Dictionary keys stand for one value each, forever",
  "Within one project, table and column, a value always has the same key once it has one, different values have different keys, and a key decodes to its value, also after reopening the store. Other projects, tables and columns never interfere, whatever their names have in common.",
  ["histories"], "every history of key requests over four values (among them the empty one and one that looks like a stored path) in five places with overlapping names, and of pinned keys, up to the depth the budget allows",
  "The tests ask for two keys in one place.",
  [MSRC + "dictionaries.rs"], [("value-to-key and key-to-value entries written together", MSRC + "dictionaries.rs get_key_or_create, create_key")], HIST, MODEL + "Depth 4 (quick) or 5 (thorough).", ["get_key_or_create, create_key, get_key, get_value"])
prop("M06", "Users, anonymous users and groups keep one identity",
  "An anonymous id always stands for the same user; a user first seen with an anonymous id takes over the identity of that anonymous user, and a known user keeps its own. Ids of different users, and of groups by name, never coincide; updates of a user's properties change only the given ones; at most as many groups as there are tables are given out.",
  ["histories"], "every history of anonymous lookups, merges, get-or-creates, property updates, group creations and record numbers over two projects, two groups and a few names, up to the depth the budget allows, and every kind of property value",
  "The tests run one linear scenario; merges of known with unknown ids, repeated merges and prefixes (project 1 and 11) are not tried.",
  [MSRC + "groups.rs"], [("anonymous and real ids from one sequence", MSRC + "groups.rs merge_with_anonymous, get_or_create_anonymous_id, create_or_update")], HIST, MODEL + "Depth 3 or 4 (quick), one or two more (thorough).", ["merge_with_anonymous", "get_or_create_anonymous_id", "create_or_update", "get_or_create", "get_or_create_group"])
prop("M07", "Sessions start once and end exactly when the sweep says so",
  "A user's event starts a session exactly if the user has none in that project, and otherwise moves the time of the session; a sweep offers every session of its project with its last time and ends exactly those chosen. A sweep that fails ends none, and other projects are not affected.",
  ["histories"], "every history of events (two users and times, projects 1, 11 and 2), sweeps with every choice and clearings, up to the depth the budget allows",
  "The test ends one of three sessions once; prefixes of project ids and repeated events are not tried.",
  [MSRC + "sessions.rs"], [("one record per project and user, prefix scan", MSRC + "sessions.rs set_current_time, check_for_deletion")], HIST, MODEL + "Depth 5 (quick) or more.", ["set_current_time", "check_for_deletion", "clear_project", "get_by_user_id"])
prop("M08", "Every property has a column of its own of the right type",
  "Each property of a project has its own column name, which leads back to that property, and that column exists, with the property's stored type, in the event table and for group properties also in the group's table. A deleted property's column is not given to a new property of the project.",
  ["histories"], "every history of creations (event, user and group properties, three types, plain or dictionary, two projects) and deletions up to the depth the budget allows, and every data type alone",
  "The tests create properties of one type; the position counter is shared by all property kinds of a project and the storage is told separately.",
  [MSRC + "properties.rs", "src/storage/src/db.rs"], [("position counter per type", MSRC + "properties.rs create_"), ("columns added with the property", "src/storage/src/db.rs add_field")], HIST, MODEL + "The event store is the real one. A data type is stored alike in all projects, as the ingester does.", ["create, get_or_create, delete, get_by_column_name, schema"])
prop("M09", "Custom event definitions never form cycles or nest too deep",
  "A custom event is accepted exactly if every event it refers to exists, it does not refer to itself through others, and it nests no deeper than allowed; a refused creation or update changes nothing. Reading any accepted definition ends.",
  ["histories"], "every history of creations and redefinitions over regular events (known and unknown, by id and name) and up to a few custom events referring to each other, up to the depth the budget allows",
  "The tests cover one cycle and one depth; updates that close a cycle through several events need a sequence.",
  [MSRC + "custom_events.rs"], [("recursive validation", MSRC + "custom_events.rs validate_events")], HIST, MODEL + "Redefinitions that share a custom event twice (diamonds) are refused by the code and by the model.", ["create", "update", "get_by_id"])
prop("M10", "Organizations and accounts agree on memberships and roles",
  "An account is listed as a member of an organization with a role exactly if the account lists that organization with that role, through any history of organizations created and members added, removed and given roles. An operation that fails changes neither side.",
  ["histories"], "every history of up to the budgeted depth over two organizations, accounts that exist and one that does not, and two roles",
  "The tests follow one member through one scenario.",
  [MSRC + "organizations.rs", MSRC + "accounts.rs"], [("both sides written in one transaction", MSRC + "organizations.rs add_member, remove_member, change_member_role")], HIST, MODEL + "Deletion of whole organizations and accounts is outside the statement.", ["add_member", "remove_member", "change_member_role", "get_by_id"])
prop("M11", "Settings and backups are kept as saved, with one idle backup at most",
  "Saved settings read back equal in every field, and a field of its own never changes another. Every backup keeps its id, target and last status until deleted, with progress and failure texts intact; while one waits to be started no second one is accepted.",
  ["histories", "inputs"], "every settings field with each of its representative values in every pair, and every history of backup creations (all targets), status changes and deletions up to the depth the budget allows",
  "The tests store one settings record and one backup.",
  [MSRC + "settings.rs", MSRC + "backups.rs"], [("encodings to stored messages", MSRC + "settings.rs, backups.rs serialize, deserialize"), ("idle check", MSRC + "backups.rs create")], HIST, MODEL, ["settings save and load", "backups create, update_status, delete, list"])
HOOKS = {"guard": "cargo feature mc (of the storage crate)", "enable": "ws/wrap/storage/Cargo.toml builds src/storage with the feature mc on by default", "source_commits": ["9d29f67"]}
ISRC = "src/ingester/src/"
ING = "Requests go through the real HTTP routes, executor and local destinations onto the real event store and the real metadata; every request sequence of the stated bounds is run and what is stored is decoded and compared with an independent model at its end, after a flush and after reopening. Trusts the stand-ins of DESIGN.md (key-value store, array and file formats). "
IHIST = "exhaustive exploration of request histories on the real ingestion path against a reference model"
IFILES = [ISRC + "executor.rs", ISRC + "lib.rs", ISRC + "destinations/local/track.rs", ISRC + "destinations/local/identify.rs", ISRC + "sources/http/mod.rs", "src/storage/src/db.rs"]
prop("I01", "An accepted event or profile stores every property value unchanged",
  "When a track or identify request is accepted, each of its property values is stored under that property with the type the property has, equal to what the request said, for every text, number, truth value and time, and also the event name, names, time and address. A value that the property cannot hold makes the request be refused and is never stored as something else, and strings stay apart however many a dictionary property has seen.",
  ["inputs", "histories"], "every pair of values of a boundary set into a new property and every value followed by others into each kind of existing property, as event property, group profile or user profile; odd names, times and addresses; more strings than a small dictionary has numbers for",
  "The only ingester test sends one event; number scales, dictionary widths and type conflicts are each wrong or right alone.",
  IFILES, [("conversion of values by property type", ISRC + "lib.rs property_to_value"), ("property types fixed by the first value", ISRC + "executor.rs"), ("dictionaries per table and column", "src/metadata/src/dictionaries.rs")],
  "exhaustive enumeration of request values on the real ingestion path against a reference model", ING + "Transformers (geo, user agent) are off. Fractions given to integer properties are dropped.", ["track", "identify", "stored rows"])
prop("I02", "Events of one person carry one identity",
  "All events tracked with the same user id, or with the same anonymous id, carry the same stored user. A user first seen together with an anonymous id takes over the identity of that anonymous user, a known user keeps its own, a profile has the identity of its user, and people never seen together never share one.",
  ["histories"], "every sequence of up to 4 (quick) requests over two users, two anonymous ids (one of them spelled like a user id), identify and groups",
  "The ingester has no test with two requests.",
  IFILES + ["src/metadata/src/groups.rs"], [("user resolution", ISRC + "executor.rs"), ("merge with anonymous", "src/metadata/src/groups.rs merge_with_anonymous")], IHIST, ING + "Two users that were first seen with the same anonymous id share its identity.", ["track", "identify", "stored user of events and profiles"])
prop("I03", "A session begins with its first accepted event and only then",
  "The first accepted event of a user without an open session is stored together with one Session Begin event, with the campaign parameters and address of that request, and every further event until the session ends is stored alone. A refused request begins no session, and the project's event count is the number of accepted tracks.",
  ["histories"], "every sequence of up to 4 (quick) or 6 (thorough) of accepted and refused tracks of three people and session ends",
  "No test tracks twice or looks at the session events.",
  IFILES + ["src/metadata/src/sessions.rs"], [("session begin written with the first event", ISRC + "destinations/local/track.rs send"), ("session times", "src/metadata/src/sessions.rs set_current_time")], IHIST, ING, ["track", "Session Begin events", "sessions"])
prop("I04", "Profiles keep the latest value of each property and mark later events",
  "After any sequence of identify requests a user or group has exactly one profile, with the latest value of each property ever given and the time of the last request. An event that names a group carries the profile values the group had at that moment, and events before and of other groups are not changed.",
  ["histories"], "every sequence of up to 4 (quick) or 5 (thorough) of identifies of one user and three groups and events with and without groups",
  "No test sends an identify request.",
  IFILES + ["src/metadata/src/groups.rs", "src/storage/src/memtable.rs"], [("profile merge", "src/metadata/src/groups.rs create_or_update"), ("replacing tables", "src/storage/src/memtable.rs chunk"), ("group values copied to events", ISRC + "destinations/local/track.rs send")], IHIST, ING + "The user's own profile values are attached only to events that also name groups, as the code has it.", ["identify", "track with groups", "stored profiles"])
prop("I05", "Refused requests store nothing and disturb nothing",
  "A request that is malformed, lacks a user, has an unknown token, a value its property cannot hold or one group too many is refused with an error status, without a panic, and stores no event and no profile. Requests before and after it are stored as if it had never been sent.",
  ["histories", "inputs"], "every request of a list of malformed and impossible ones, alone and in pairs, before, between and after accepted ones",
  "No test sends a bad request.",
  IFILES, [("order of checks and effects", ISRC + "executor.rs, destinations/local/track.rs send"), ("request decoding", ISRC + "sources/http/mod.rs")], IHIST, ING + "A refused request may make its user, group or properties known.", ["track", "identify", "answers and stored rows"])
prop("I06", "The schema lists exactly the events and properties that were tracked",
  "After any history of tracked events, each event's definition exists once and lists each property it was tracked with once and no other; each property is defined once per project, with the type of its first value, and values of another type are refused. A property taken off an event is listed again once it is tracked again, and other projects are not affected.",
  ["histories"], "every sequence of 4 (quick) or 5 (thorough) of tracks of several events with overlapping sets of properties of agreeing and disagreeing types into two projects, and of taking a property off an event",
  "The only ingester test sends one event; lists that grow over several events are not looked at.",
  IFILES + ["src/metadata/src/events.rs", "src/metadata/src/properties.rs"], [("properties attached to the event", ISRC + "executor.rs execute, src/metadata/src/events.rs try_attach_properties"), ("property types fixed by the first value", ISRC + "executor.rs resolve_property")], IHIST, ING + "What a refused request makes known of its event may be listed.", ["track", "definitions of events and properties"])
prop("I07", "An event shows the device and place of its own request",
  "Each accepted event, and the beginning of a session with it, has exactly its own properties and, besides, all that is recognised from the user agent and the address of its own request (or the sender's, if it names none); what the request says itself takes precedence. An unknown address or a missing user agent adds nothing and refuses nothing.",
  ["inputs", "histories"], "every combination of six user agents, six addresses (known in full, in part, not at all) and five sets of own properties, with both transformers in either order or one of them, and every fourth (thorough: every) pair of such requests of one user",
  "The only ingester test has no transformers.",
  IFILES + [ISRC + "transformers/user_agent/mod.rs", ISRC + "transformers/geo/mod.rs"], [("what the parser recognises becomes properties", ISRC + "transformers/user_agent/mod.rs resolve_properties"), ("unknown addresses", ISRC + "transformers/geo/track.rs process"), ("first value of a column wins", "src/storage/src/memtable.rs")], IHIST.replace("request histories", "requests and pairs of them"), ING + "The parser of user agents and the database of places are stand-ins behind the interfaces of uaparser and maxminddb.", ["track", "stored properties"])
SSRC = "src/storage/src/"
SFILES = [SSRC + "db.rs", SSRC + "compaction.rs", SSRC + "memtable.rs", SSRC + "table.rs", SSRC + "lib.rs", SSRC + "parquet/arrow_merger.rs", SSRC + "parquet/parquet_merger.rs", SSRC + "parquet/merge_data_arrays.rs"]
STO = "The real store on real files in a scratch directory; compaction and file removal run when the explorer says so (hook mc). Trusts the stand-ins for the array and file formats (DESIGN.md), on which the repository's own storage tests pass. "
SMECH = [("log, then memory", SSRC + "db.rs insert, try_recover_table"), ("parts and levels", SSRC + "db.rs flush_log_, scan"), ("merging", SSRC + "compaction.rs, parquet/parquet_merger.rs, parquet/arrow_merger.rs")]
prop("S01", "A scan yields every inserted row once and nothing else",
  "Whatever was inserted into a table that is not replacing is yielded by every later scan exactly once, with every value as inserted and null where none was given, in the order of the index columns, and for any projected columns. Flushing, compaction, removal of unused files, new columns and reopening, in whatever order, change nothing of that.",
  ["histories", "configurations"], "every sequence of 4 (quick) or 5 (thorough) of inserts of three keys, flush, compaction, file removal, a new column and reopening in seven configurations (page, chunk, row group and part sizes of one row; every level overflowing; columns of every type), and every arrangement of 3 or 4 parts of five sets of keys with compaction after any of them",
  "The storage tests merge a handful of fixed parts; what happens to rows depends on which parts overlap at which level.",
  SFILES, SMECH, "exhaustive exploration of operation histories on the real store against a reference model", STO, ["insert", "scan", "flush", "add_field", "compaction", "open"])
prop("S02", "A replacing table yields the newest row of each key",
  "A scan of a replacing table yields for each key exactly one row, the one inserted last with all its values (none taken from older rows), in the order of the index. Flushing, compaction, removal of unused files, new columns and reopening, in whatever order, change nothing of that.",
  ["histories", "configurations"], "as S01, with keys that differ in the first index column; and histories of keys that share it, in one part or in memory",
  "The tests replace rows in memory or in two fixed parts; which of several parts and levels has the newest row depends on the history.",
  SFILES, SMECH, "exhaustive exploration of operation histories on the real store against a reference model", STO + "Keys that agree in the first index column only are open findings where they meet in different parts.", ["insert", "scan", "flush", "compaction", "open"])
prop("S03", "A killed process loses no acknowledged row and leaves a usable store",
  "When the process is killed at any moment of an insert, a flush, a compaction, a removal of files, an addition of a column or a creation of a table, reopening yields every acknowledged row once, and the row of the interrupted insert wholly or not at all. The store then goes on working: inserts, new columns, flushes, compactions and further reopenings lose and repeat nothing.",
  ["crash_points", "histories"], "every call that changes a file, and several cuts of every write, in the last operation of every history of up to 2 further operations after four starting points in five configurations; repeated during recovery; then a fixed continuation with scans",
  "No test kills the process; test_recovery reopens after operations that completed.",
  SFILES, SMECH, "exhaustive enumeration of crash points and torn writes on the real store (interposed file calls), with recovery and continuation compared with a reference model", STO + "The system itself does not crash: the store never asks for its writes to be on the medium.", ["files of the table", "open", "scan"])
prop("S04", "Concurrent operations on a table act one after the other",
  "While inserts, flushes, compactions, file removal, new columns, scans and backups run at the same time, none fails, blocks for ever or loses a row: a scan yields every row whose insert had returned before it began, none that had not begun, none twice, and never fewer than an earlier scan. A backup is of one moment in the same sense, and afterwards the table and its files are as after some order of the operations.",
  ["schedules"], "49 teams of two or three threads from three starting points in three configurations, every schedule of their lock and file operations with up to 2 preemptions (1 for longer teams)",
  "The tests run one thread.",
  SFILES, [("per-table locks", SSRC + "db.rs insert, scan, flush, add_field, full_backup"), ("counts of opened files", SSRC + "lib.rs Fs"), ("compaction works on a copy of the levels", SSRC + "compaction.rs run, compact")], "stateless exploration of all thread schedules up to a preemption bound on the real store (controlled locks and file calls)", STO + "Locks wrap parking_lot's; accesses between lock and file operations are not interleaved.", ["insert", "scan", "flush", "full_backup_local", "compaction"])
prop("S05", "A look-up by key finds what was inserted, wherever it lies",
  "The look-up of a row by the columns of its index, or by the first of them, finds a row inserted with that key, and none if there is none; of a replacing table the newest one, and by the first columns the newest version. It makes no difference where the rows lie (memory, parts, levels, row groups), what types their columns have, which columns were added since, or what goes on at the same time.",
  ["histories", "schedules", "configurations"], "every sequence of 3 (quick) or 4 (thorough) operations after four starting points in every configuration, replacing or not, with look-ups of keys that are there and of others after each; every history of 6 or 8 new versions, flushes and compactions; look-ups at the same time as other operations, in every order of lock and file operations up to a number of preemptions",
  "The tests look up one key in memory and one in a part of whole numbers.",
  SFILES, [("look-up", SSRC + "db.rs get"), ("look-up in memory", SSRC + "memtable.rs get"), ("range of a part", SSRC + "parquet/mod.rs, parquet/arrow_merger.rs min_values")], "exhaustive exploration of operation histories and of schedules on the real store against a reference model", STO + "Index columns are 64-bit numbers, as a look-up requires. ", ["get"])
prop("S06", "A backup restores exactly the tables of its moment",
  "Restoring a backup, in place or into another store, yields every table with the columns and rows it had when the backup was made, whatever has happened since. The restored store goes on working: inserts, new columns, flushes, compactions and reopenings lose and repeat nothing.",
  ["histories"], "every sequence of 3 operations before and 2 after the backup after three starting points, restored in place and elsewhere, seven configurations in turn",
  "The one backup test restores one fixed store at once.",
  SFILES, [("serialised tables, logs and parts", SSRC + "db.rs full_backup, full_restore")], "exhaustive exploration of operation histories on the real store against a reference model", STO, ["full_backup_local", "full_restore_local", "scan"])
prop("S07", "Files are removed when nothing reads them, and only then",
  "A scan that has begun yields the rows of its beginning however late it is read, whatever is inserted, flushed, merged and removed in the meantime. When no scan is open, removal of unused files leaves exactly the current rows on disk, each in one file, also after scans that were not read to their end.",
  ["histories"], "every sequence of 3 (quick) or 5 (thorough) of inserts, flush, compaction, file removal, beginning, reading and dropping a scan after four starting points in seven configurations",
  "No test holds a scan, looks at the directory or removes files.",
  SFILES, [("counts of opened files", SSRC + "lib.rs Fs"), ("removal of files the metadata does not name", SSRC + "db.rs gc"), ("removal after a merge", SSRC + "compaction.rs run")], "exhaustive exploration of operation histories on the real store against a reference model", STO, ["scan", "files of the table"])
prop("S08", "An operation that fails on a full disk harms nothing else",
  "When one file operation of an insert, flush, compaction, file removal, new column or new table fails or is cut short, every acknowledged row stays, once, and the failed insert is there wholly or not at all. The store goes on working without being reopened, and also after it.",
  ["fault_sequences", "histories"], "every call that changes a file failing, and every write cut at several places, in the last operation of every history of up to 2 further operations after four starting points in five configurations; then a fixed continuation with scans",
  "No test makes a write fail.",
  SFILES, SMECH, "exhaustive enumeration of single faults on the real store (interposed file calls), with the continuation compared with a reference model", STO + "A compaction that meets a fault may panic, as it does.", ["insert", "flush", "scan", "open"])
QSRC = "src/query/src/"
QFILES = [QSRC + "lib.rs", QSRC + "event_segmentation.rs", QSRC + "expr.rs", QSRC + "logical_plan/expr.rs", QSRC + "logical_plan/partitioned_aggregate.rs", QSRC + "physical_plan/planner/mod.rs"]
QRY = "The real query crate from request to result (DataFusion 33 included) over the real store and metadata. Trusts the stand-ins for rocksdb and the file format (DESIGN.md), on which the repository's own query tests pass. A row of zeros or nulls only equals an absent row. "
prop("Q01", "Segmentation counts are those of the project's events",
  "An event segmentation reports for each event, query, breakdown value and period what the definition of the query gives over exactly the events of that project in that time: counts, unique users or groups, counts per user, and sums, averages, minima and maxima of a property, also per user. How the rows are spread over memory, parts, partitions and batches makes no difference, nor does the compact format of the answer.",
  ["inputs", "configurations"], "every set of up to 3 (quick) or 4 (thorough) events of a small universe (users, events, properties present or not, two sides of a period's border, another project) in several storage layouts, each with every query, aggregate, interval unit and breakdown, by user and by another group, in both formats of the answer",
  "The query tests look at one fixed table and mostly print the result.",
  QFILES + [QSRC + "physical_plan/partitioned_aggregate.rs", QSRC + "physical_plan/expressions/aggregate/mod.rs", QSRC + "physical_plan/limit_groups.rs", QSRC + "physical_plan/pivot.rs"], [("aggregates per user", QSRC + "physical_plan/expressions/aggregate/partitioned"), ("plan of a request", QSRC + "event_segmentation.rs, lib.rs"), ("limit of groups", QSRC + "physical_plan/limit_groups.rs")],
  "exhaustive enumeration of small tables, layouts and requests on the real query engine against a reference model", QRY + "Segments and formulas are not implemented upstream and not covered; each breakdown value is limited to 50.", ["event_segmentation", "result columns"])
prop("Q02", "Filters select exactly the events that satisfy them",
  "A filter with any operator on a property of any type selects exactly the events whose value satisfies it, also next to other filters on the same or other properties, inside custom events (nested ones too), for the whole request or one event. Counts and searches for events agree on it, and a value no event ever had selects nothing.",
  ["inputs", "configurations"], "every operator with every choice of values on a property of every type, every pair of filters, custom events of every shape up to two levels, each in a count and in a search over a table with every value and null",
  "Tests build a few filters by hand and do not run them over nulls or unknown values.",
  QFILES + [QSRC + "event_records.rs", "src/metadata/src/custom_events.rs"], [("filters to expressions", QSRC + "expr.rs property_expression, event_filters_expression"), ("dictionary values decoded and looked up", QSRC + "lib.rs decode_filter_dictionaries")],
  "exhaustive enumeration of filters over a table of all values on the real query engine against a reference model", QRY + "A pattern of % alone and order comparisons of strings are not claimed.", ["event_segmentation", "event_records search"])
prop("Q03", "A funnel counts exactly the attempts the project's users made",
  "A funnel reports for each step the attempts that reached it, their ratios and times, as an event by event walk of each user (or other group) gives over the events of that project and time: steps in their order, within the window, with the filters of steps and request, begun anew by an excluded event or a changed property held constant; unique counts end with a user's first complete attempt. This holds for each breakdown value and calendar period of the first step. Other users and projects, and how the rows are spread over memory, parts, partitions and batches, make no difference.",
  ["inputs", "configurations"], "every sequence of up to 3 (quick) or 4 (thorough) events of a user (three events, early or late, with or without a property) next to another user's, in every option of a funnel; the borders of every window and period; every filter and pair of values of every property type; every cut into batches of every sequence of 4 or 5 events of two users",
  "The tests of funnels compare debug traces of single users in one batch and assert nothing about results.",
  ["src/query/src/funnel.rs", "src/query/src/physical_plan/funnel.rs", "src/query/src/physical_plan/planner/funnel.rs", "src/query/src/physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs", "src/common/src/funnel.rs"],
  [("walk over the rows of a partition", QSRC + "physical_plan/expressions/aggregate/partitioned/funnel/funnel.rs Funnel::evaluate"), ("merging of partitions", QSRC + "physical_plan/funnel.rs FinalFunnelStream"), ("request to plan", QSRC + "funnel.rs build")],
  "exhaustive enumeration of event sequences, options and batch cuts on the real query engine against a reference walk", QRY + "Steps in any order, filters by drop-off, touch, session counts and session windows are not claimed.", ["funnel"])
PSRC = "src/platform/src/"
PF = [PSRC + "lib.rs", PSRC + "http/mod.rs", "src/common/src/rbac.rs", PSRC + "context.rs"]
API = "The real HTTP routes, handlers and providers of the server (axum's router called in-process) over the real metadata, query and storage crates; only RocksDB and the file format are stand-ins (DESIGN.md). "
prop("P01", "The API lets each account do exactly what its roles permit",
  "Every endpoint of the API is allowed to an account exactly if its global role, its role in the organization its token is for, or its role in the project addressed gives the permission the endpoint stands for. A role in one organization or project gives nothing in those of another, a refused request reveals and changes nothing, and an endpoint acts on the very object its path names.",
  ["inputs", "configurations"], "every endpoint with every combination of a global role, organization roles and project roles, for the own and another organization's project",
  "No test calls a route; each handler names its permission and takes the parameters of its path on its own, so each can be wrong alone.",
  PF + [PSRC + "http/" + x + ".rs" for x in ("accounts", "events", "custom_events", "dashboards", "projects", "reports", "bookmarks", "groups", "organizations")] + [PSRC + "projects.rs", PSRC + "organizations.rs", PSRC + "events.rs"],
  [("permissions of roles", "src/common/src/rbac.rs"), ("checks of a request's context", PSRC + "context.rs"), ("routes and parameters of paths", PSRC + "http")],
  "exhaustive enumeration of endpoints and role assignments on the real server against a reference access matrix", API + "Trusts the table of permissions per endpoint, read from the role definitions.", ["every route of /api/v1"])
prop("P02", "Only a valid login or token acts for an account, and only as that account",
  "A request is served for an account only with an access token the server signed and that has not run out: a token of another kind, key or age, or changed in any character, is refused at every endpoint. After any history of sign-ups, logins, refreshes, and changes of password, e-mail, name and profile, one logs in with exactly the latest e-mail and password, acts for exactly that account and organization, and sees what the latest update left.",
  ["inputs", "histories"], "every endpoint with every kind of bad token, every character of a token changed, and every history of account operations over two accounts up to depth 3 (quick) or 4 (thorough)",
  "Tests do not go through the server's authentication; which updates keep the other fields, and which e-mail and password count afterwards, depend on sequences of operations.",
  PF + [PSRC + "auth/" + x + ".rs" for x in ("mod", "provider", "token", "password")] + [PSRC + "http/auth.rs", "src/metadata/src/accounts.rs"],
  [("tokens", PSRC + "auth/token.rs"), ("login and profile", PSRC + "auth/provider.rs"), ("token to context", PSRC + "context.rs")],
  "exhaustive exploration of operation histories on the real server against a reference model", API + "That a signature cannot be forged is left to the libraries; expiry is checked with tokens made to have run out.", ["/api/v1/auth/*", "every route of /api/v1"])
prop("P04", "What was tracked is what the API shows, finds and counts",
  "Records of events and groups, found by a search or by id, show exactly the properties with which they and their users and groups were tracked and identified: each type, also absent ones. Searches with any filter, list of properties or order, values of properties (of all, regular and custom events), and counts and funnels broken down by a property agree with what was tracked into that project, in both formats, no matter what other projects have.",
  ["inputs", "histories"], "worlds of two users, two companies and three events in which each property of each type has one of three values or none: every choice for each two (quick) or all three (thorough) events, several projects to a store; in each, every filter, selection, order, breakdown and funnel on each property of events, users and companies; every history of three (four) tracks, identifies and deletions of events with properties named like columns of the server",
  "No test goes from the ingestion of an event to an answer of the API.",
  [PSRC + x + ".rs" for x in ("lib", "event_records", "group_records", "properties", "event_segmentation", "funnel")] + [QSRC + x + ".rs" for x in ("event_records", "group_records", "properties", "lib", "expr")] + ["src/ingester/src/destinations/local/track.rs", "src/ingester/src/destinations/local/identify.rs"],
  [("records and decoded dictionaries", QSRC + "event_records.rs, group_records.rs"), ("values of properties", QSRC + "properties.rs"), ("values to JSON", PSRC + "lib.rs array_ref_to_json_values, scalar_to_json"), ("validation of filters", PSRC + "lib.rs validate_event_filter_property")],
  "exhaustive enumeration of small tracked worlds and requests from the real ingester through the real store to the real API, against what was sent", API + "Only the first group of filters is applied upstream; group numbers beyond the last are not claimed.", ["ingest routes", "event-records, group-records, property-values, event-segmentation, funnel"])
prop("P05", "A change of the server's settings sets exactly what it names",
  "After any history of changes, the settings are what the accepted changes named, each taken over entirely or refused without effect, and reading them never reveals a secret. Settings under which backups could not work are refused: encryption without a password, a provider without its access data, an hour that is on no clock. A changed signing key ends all logins of the earlier one, and a backup asked for takes place, once, exactly if backups are enabled and with the settings of that moment.",
  ["histories"], "every history of changes (each field to each of its values, and groups of fields) up to depth 3 (quick) or 4 (thorough), each followed by a request for a backup",
  "No test changes a setting over the API; eighteen fields are copied by hand in four places.",
  [PSRC + "settings.rs", PSRC + "backups.rs", PSRC + "http/settings.rs", PSRC + "http/backups.rs", "src/metadata/src/settings.rs", "src/metadata/src/backups.rs"],
  [("fields of an update", PSRC + "settings.rs set, get"), ("unusable settings", "src/metadata/src/settings.rs validate"), ("backup from settings", "src/metadata/src/backups.rs from_settings, create")],
  "exhaustive exploration of update histories on the real server against a reference model", API + "One administrator at a time.", ["/api/v1/admin/settings", "/api/v1/admin/backups"])
prop("P06", "A wrong request is answered, and a refused one changes nothing",
  "Any request with something wrong in it - a value of another type, out of range or missing, an empty or doubled list, an unknown name or number, a path or time that makes no sense - is answered: the handler never panics. A request that is refused leaves everything stored as it was, and after one that is accepted everything still reads back. Queries over stored rows with any filter on any type of property are answered too.",
  ["inputs"], "every request of the API with each place of its body replaced by 26 odd values, removed, doubled or emptied, each part of its path by 12, odd times of query; 14 operations with the 26 odd values on properties of 7 types (thorough: all types, and pairs of odd values in the smaller requests)",
  "Tests send right requests, and a few wrong ones.",
  [PSRC + x for x in ("lib.rs", "http/mod.rs", "http/properties.rs", "event_segmentation.rs", "funnel.rs", "event_records.rs", "group_records.rs", "properties.rs")] + ["src/common/src/query.rs", "src/query/src/event_segmentation.rs", "src/query/src/group_records.rs"],
  [("values of filters", PSRC + "lib.rs deserialize_scalars, json_value_to_scalar"), ("times and groups", PSRC + "lib.rs validate_time, validate_search_request, validate_request"), ("answers", PSRC + "lib.rs array_ref_to_json_values")],
  "exhaustive enumeration of requests with one fault (thorough: two) against the real server", API + "Ranges of time of thousands of years are left out of segmentation, as they need a column for each period.", ["every route of /api/v1"])
prop("P03", "What is saved over the API reads back, and an update changes what it names",
  "Any report, bookmark or custom event saved over the API is given back the same, on saving, reading, listing, updating and deleting: every kind of query, time, filter, value, breakdown, segment and option. An update of a report, dashboard, custom event, event, property, project or organization changes exactly the fields it names, clears those it names as null, and touches no other object.",
  ["inputs", "histories"], "every variant of every part of a definition and every pair of parts (a few variants each in quick, more in thorough), and every update of every kind (each field absent, null or one of two values), alone and followed by an update of another object; a long history of updates of properties in six stores, and every sequence of 3 (thorough 4) attachments of properties to events",
  "Tests save one request; the conversion of each variant is written out by hand in both directions.",
  [PSRC + x + ".rs" for x in ("lib", "reports", "bookmarks", "dashboards", "custom_events", "events", "properties", "projects", "organizations", "funnel", "event_segmentation")] + ["src/metadata/src/reports.rs", "src/metadata/src/custom_events.rs"],
  [("definitions to and from JSON", PSRC + "lib.rs, event_segmentation.rs, funnel.rs"), ("values of filters", PSRC + "lib.rs json_value_to_scalar, scalar_to_json_value"), ("partial updates", PSRC + "reports.rs, dashboards.rs, custom_events.rs, events.rs, properties.rs, projects.rs, organizations.rs")],
  "exhaustive enumeration of definitions and updates on the real server, compared with what was sent", API + "Filters in several groups, and groups where any filter is enough, are not implemented upstream.", ["reports, bookmarks, dashboards, custom events, events, properties, projects, organizations"])
