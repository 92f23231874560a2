NOT_APPLICABLE = []
PROPS = [
dict(id="P01", title="Bit-packed reads return exactly the stream's bits and position",
 statement="Reading an unsigned number of any width from 0 to 64 bits, a bit string of any length, a flag, a byte, a four byte code or an offset integer from a bit packed stream yields exactly the value made of the stream's next bits (bytes consumed from their least significant bit, earlier chunks being more significant), and leaves the read position exactly that many bits further, or at the next byte boundary for an alignment. A read that asks for more bits than remain, or for a number wider than 64 bits, is refused with an error and never returns a value.",
 over=["inputs","histories"], quant="every width 0..64 at every bit offset 0..7, every buffer length around the need, every 16 bit content, and every sequence of up to 3 (thorough 4) reads of a 27 operation alphabet",
 why="The existing tests decode one captured event at a fixed alignment; a wrong carry or mask only shows at a width/offset combination that capture does not contain.",
 files=["src/bit_packed_decoder.rs","src/lib.rs"],
 mech=[("bit packed primitives","src/bit_packed_decoder.rs:take_n_bits_into_i64, take_bit_array, byte_align, parse_bool, take_unaligned_byte, take_fourcc, parse_packed_int")],
 technique="bounded exhaustive enumeration of operation sequences on the real code against a reference reader",
 note="All widths x offsets x buffer lengths x walking-bit contents, all 2 byte contents and all read sequences to the stated depth; the real functions are executed on each and compared with an independent bit-by-bit reader."),
dict(id="P02", title="Variable-length integers and tagged values decode exactly or are refused",
 statement="A variable length integer decodes to exactly the signed number its bytes denote and consumes exactly its bytes; one that does not fit the target type, or whose bytes end early, is an error, never a wrapped number or a crash. A tagged value (integer, blob, boolean, optional, array, struct, choice, four character code) is accepted only under its own tag, yields exactly its content and consumes exactly its encoding; a declared length beyond the data is an error.",
 over=["inputs"], quant="every byte string up to 2 (thorough 3) bytes, every magnitude boundary of 1 to 11 byte encodings, every tag byte before every kind of value, every truncation",
 why="Tests decode a handful of positive small numbers; sign, width and truncation boundaries are never reached.",
 files=["src/versioned_decoder.rs","src/lib.rs"],
 mech=[("variable length integers","src/lib.rs:parse_vlq_int"),("tagged values","src/versioned_decoder.rs")],
 technique="bounded exhaustive enumeration of inputs on the real code against an exact reference decoder",
 note="All short byte strings plus every boundary encoding, both primitives and tagged readers executed on each."),
dict(id="P03", title="Tracker events decode to the values written, in order",
 statement="For every tracker event kind and every protocol generation, a stream of any number of encoded events (none too) decodes to exactly those events in order: each field has exactly the value written whatever the order the fields come in, omitted or empty optional fields read as absent, each loop delta has its value in every width, and exactly the event's bytes are consumed. The version independent event carries every field unchanged, except that supply used and supply made are the whole part of the stored value divided by 4096; the list of a statistics event's entity paths and values (minerals/…, vespene/…, food/…) has each statistic once, under its own path. The one shot reader and the step by step iterator report the same events, the iterator with loops that are the running sum of the deltas.",
 over=["inputs","histories"], quant="all 10 event kinds with every combination of 2 (thorough 3) field deviations over boundary domains, walking bits, field orders, all delta widths, all event sequences to depth 3 (thorough 4), 10 protocol builds around the generation edges",
 why="One captured player setup event is decoded today; the other nine kinds, optional presence and sequences are untested.",
 files=["src/versions/protocol87702/mod.rs","src/versions/protocol87702/events/tracker/mod.rs","src/tracker_events/iterator.rs","src/versions/mod.rs"],
 mech=[("event pair decoder and conversions","src/versions/protocol87702/events/tracker/mod.rs"),("iterator","src/tracker_events/iterator.rs"),("generation choice","src/versions/mod.rs:read_tracker_events")],
 technique="deviation-bounded exhaustive exploration of a frozen wire-format model, every trace replayed on the real decoders",
 note="Values are generated from the frozen format description, encoded by an independent writer, decoded by the real code and compared field by field; all sequences to the stated depth go through the reader and the iterator."),
dict(id="P04", title="Game events decode to the values written, in order, in both protocol generations",
 statement="For every one of the game event kinds of both protocol generations (base builds up to 75689 and later ones), a stream of any number of bit packed events (none too) decodes to exactly those events in order: the loop delta in every width, the user, and each field (optional, list, choice, bit mask, text) have exactly the value written, and the next event starts at the next byte boundary. The version independent event carries every field of the supported kinds unchanged (text that is not UTF-8 is kept in a readable form), other kinds are skipped without disturbing their neighbours; the one shot reader and the step by step iterator report the same events, the iterator with running loops and the user's name where known.",
 over=["inputs","histories"], quant="all 107+ event kinds of two generations with every combination of 2 (thorough 3) field deviations over boundary domains and walking bits, all delta widths, all event sequences to depth 3 (thorough 4) over 12 kinds, 22 base builds around the generation edges",
 why="One captured camera event is decoded today; optional fields, lists and the older generation's layout are never exercised.",
 files=["src/versions/protocol87702/mod.rs","src/versions/protocol75689/mod.rs","src/versions/protocol87702/events/game/mod.rs","src/game_events/iterator.rs","src/versions/mod.rs"],
 mech=[("event triplet decoder and conversions","src/versions/protocol87702/events/game/mod.rs"),("iterator","src/game_events/iterator.rs"),("generation choice","src/versions/mod.rs:read_game_events")],
 technique="deviation-bounded exhaustive exploration of a frozen wire-format model, every trace replayed on the real decoders",
 note="Values are generated from the frozen format description, encoded by an independent writer, decoded by the real code and compared field by field; all sequences to the stated depth go through the reader and the iterator."),
dict(id="P05", title="Chat and message events decode to the values written, in order",
 statement="For every kind of message event, recipient, chat text of any length the format can hold, user and loop delta, a stream of any number of message events (none too) decodes to exactly those events in order in both protocol generations: chat messages are reported with their delta, user, recipient and text unchanged, other kinds and texts that are not UTF-8 are skipped without disturbing their neighbours, and each event consumes exactly its bytes up to the next byte boundary.",
 over=["inputs","histories"], quant="all 5 kinds with every combination of 4 field deviations (kinds, recipients, texts, deltas, all 32 users), every chat length 0..2047, every sequence to depth 3 (thorough 4) over ~25 events, 7 base builds",
 why="No test reads a message stream at all.",
 files=["src/versions/protocol87702/events/message/mod.rs","src/versions/protocol87702/mod.rs","src/message_events.rs","src/versions/mod.rs"],
 mech=[("message triplet decoder and conversion","src/versions/protocol87702/events/message/mod.rs")],
 technique="deviation-bounded exhaustive exploration of a frozen wire-format model, every trace replayed on the real decoders",
 note="Values generated from the frozen format, encoded by an independent writer, decoded by the real triplet decoder and by the reader of a whole archive."),
dict(id="P06", title="Replay details carry every stored value",
 statement="Reading replay.details yields every stored value unchanged, whatever the protocol build, the order the fields come in, or which optional fields are absent: players in order with name, account, race, colour, control, team, handicap, observer mode, result, slot and hero; title, map, times, flags, speed and difficulty; cache handles as lower case hex; absent player, cache handle or mod lists read as empty. The constants for observer mode, speed and result have the stored numbers. The names of the players are those who do not observe, in order. Setting the metadata changes only the file's number and the date.",
 over=["inputs"], quant="every combination of 2 field deviations over the whole record and over one player (thorough 3), walking bits per field, all field swaps and rotations, 0 to 70 and up to 1000 players, handles and mods, 8 base builds",
 why="No test reads details other than through one captured file that is not in the repository.",
 files=["src/versions/protocol87702/events/details.rs","src/details.rs","src/versions/protocol87702/mod.rs"],
 mech=[("details conversion","src/versions/protocol87702/events/details.rs"),("dispatch","src/versions/mod.rs:read_details")],
 technique="deviation-bounded exhaustive exploration of a frozen wire-format model, every trace replayed on the real reader",
 note="Every generated record is encoded into an archive by independent writers and read back by read_details and Details::new."),
dict(id="P07", title="Initial data and lobby carry every stored value in both protocol generations",
 statement="Reading replay.initData yields every stored value unchanged: each user's initial data, the game description with its options, slot descriptions and cache handles (as lower case hex), and the lobby state with every slot. Replays up to base build 75689 are read with that generation's slot layout (fields it lacks read as zero or empty), later ones with the current layout, and the version reported is the replay's base build. The record made for a file carries the given number and name and the SHA-256 of its contents.",
 over=["inputs"], quant="every combination of 2 field deviations of each part in both generations (thorough all parts in both), walking bits per field, 0 to 31 users and slots, 12 base builds",
 why="The existing test decodes one captured prefix and never reaches the lobby slots; the older generation is never read.",
 files=["src/versions/protocol87702/events/init_data.rs","src/versions/protocol75689/mod.rs","src/versions/protocol87702/mod.rs","src/init_data/mod.rs","src/versions/mod.rs"],
 mech=[("init data conversion","src/versions/protocol87702/events/init_data.rs"),("dispatch","src/versions/mod.rs:read_init_data"),("identity","src/init_data/mod.rs:InitData::new")],
 technique="deviation-bounded exhaustive exploration of a frozen wire-format model, every trace replayed on the real reader",
 note="Every generated record is encoded into an archive by independent writers and read back by read_init_data; the digest is compared with an independent SHA-256."),
dict(id="P11", title="The unit registry holds exactly the living units, as the events describe them",
 statement="After any history of tracker events the registry holds, by tag index, exactly the units that were born, initialized or changed type and have not died since. A birth or an initialization sets name, owner, position and the name of the owner's player, and for a birth the creator ability; a birth of a unit already known keeps its creation loop, its last command and its selection. A unit is under construction from its initialization until it is done. A type change sets the name only (it registers an unknown unit without an owner), an owner change sets the owner and the player name. The creation loop is the loop of the first event; the last update is the loop of the last event that named the unit. The radius is the one of the balance data for the current name (0.45 if unknown), doubled while the unit is selected, and the colour follows from the current name and owner.",
 over=["histories"], quant="every sequence of up to 4 (thorough 5) of 23 lifecycle events on two tag indexes including index 0x3fff, every reachable state to depth 8 with loops abstracted (thorough to the fixpoint), every reachable state of one unit; one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test ever runs the state machine; a stale field appears only after a second event on the same unit.",
 files=["src/tracker_events/state.rs","src/state/mod.rs","src/state/unit_props.rs","src/state/unit_cmd.rs"],
 mech=[("tracker event handlers","src/tracker_events/state.rs"),("units","src/state/unit_props.rs")],
 technique="explicit-state breadth-first product exploration of the real state machine and a reference model",
 note="Every reachable pair (real state, model state) within the bounds is visited and compared after each transition."),
dict(id="P12", title="Selections and control groups follow the commands of their users",
 statement="A selection delta that removes the whole former selection sets the group it names (10 is the active selection) to the tags it adds; one that removes part of it keeps the rest. Setting a control group copies the active selection to it, appending adds the selected tags it lacks, clearing empties it, recalling makes its content the active selection, and the stealing variants first take the selected tags out of all ten groups of that user. Only recalling and a delta to group 10 change which units are marked selected: the units of the new active selection are marked, those that left it are not. A unit that dies leaves every group and selection of every user. Groups above 10 and users unknown to the replay change nothing, and users never affect each other's groups.",
 over=["histories"], quant="every reachable state of three worlds (group edges, two users, shared units; thorough to the fixpoint or 800000 states), all ten groups with every kind of update to depth 4 (thorough 6); one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test feeds a selection event to the state; the defects depend on the order of several events of one user.",
 files=["src/game_events/state.rs","src/state/mod.rs"],
 mech=[("selection and control groups","src/game_events/state.rs:handle_selection_delta, update_control_group"),("death","src/tracker_events/state.rs")],
 technique="explicit-state breadth-first product exploration of the real state machine and a reference model",
 note="Groups are compared as sets of tags. Which units a partial delta keeps is a known finding (three keys)."),
dict(id="P13", title="Commands reach exactly the selected units, with the target they name",
 statement="A command with an ability becomes the last command of exactly the registered units of its user's active selection, with its flags, sequence, ability link and index, data, other unit, unit group and target (point coordinates are the stored value divided by 4096 with the second axis negated; the name of the target unit when it is registered); the ability name is the one that command has for that unit in the balance data, empty when it has none. A command without an ability changes no unit. A target point update replaces the target by the point and clears the other unit and its name; a target unit update replaces the target by that unit when it is registered and otherwise changes nothing. Commands of users unknown to the replay change nothing. Units outside the selection are never touched.",
 over=["histories"], quant="every sequence of up to 4 (thorough 5) of 25 selections, commands, target updates, type changes and deaths on four units; every reachable state to depth 6 (thorough 250000 states) with loops abstracted; one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test applies a command; tag/index confusion shows only for tags with particular bits.",
 files=["src/game_events/state.rs","src/state/unit_props.rs","src/state/mod.rs"],
 mech=[("command handlers","src/game_events/state.rs:handle_cmd, handle_update_target_point, handle_update_target_unit")],
 technique="explicit-state breadth-first product exploration of the real state machine and a reference model",
 note="Four registered units, one of them at tag index 0x3fff with a full recycle count, and units at the indexes raw tags would be mistaken for."),
dict(id="P14", title="Camera, player set-up and player names follow the events",
 statement="The camera position of a user is the target of that user's last camera save or camera update that has a target, and no other event or user changes it. A player set-up event with a known user gives that user its tracker player and slot; from then on units registered for, and upgrades of, that player carry the user's name (that of the user with the lowest number where several share the player), and no name before. The event handed back is the event given, unchanged but for the player name of an upgrade.",
 over=["histories"], quant="every reachable state over 27 camera, set-up and upgrade events of four users and seven players, and over 15 set-up and unit events (both to the fixpoint); one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test exercises it.",
 files=["src/game_events/state.rs","src/tracker_events/state.rs","src/state/mod.rs"],
 mech=[("camera","src/game_events/state.rs"),("set-up and upgrades","src/tracker_events/state.rs")],
 technique="explicit-state breadth-first product exploration of the real state machine and a reference model",
 note="Explored to the fixpoint of the reachable states."),
dict(id="P15", title="Unit position events move exactly the units they name",
 statement="A unit positions event lists triples of index increment, x and y: the n-th triple is about the unit whose tag index is the first index plus all increments up to and including its own. Its registered units get those coordinates and the event's loop as last update, others are untouched; an incomplete last triple is ignored, and the decoded list has coordinates multiplied by four as documented by to_unit_positions_vec.",
 over=["inputs","histories"], quant="every list of up to 3 (thorough 4) triples over 24 values from 5 first indexes, with 0 to 2 trailing numbers; every reachable state over 11 position and lifecycle events; one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test decodes positions.",
 files=["src/tracker_events/unit_positions.rs","src/tracker_events/state.rs"],
 mech=[("positions","src/tracker_events/state.rs:handle_unit_position"),("list","src/tracker_events/mod.rs:to_unit_positions_vec")],
 technique="bounded exhaustive enumeration of inputs and explicit-state product exploration against a reference model",
 note="All short lists and all reachable states of a small world."),
dict(id="P16", title="Change hints report exactly the units that changed, as they are afterwards",
 statement="The change hint that comes with an event describes its effect: births, initializations, completions, type and owner changes report the unit exactly as the registry now holds it, with the creator (birth; as it is now) or the unit as it was before (type and owner change); a death reports the unit as it was and the registered killer; positions, commands and target updates report exactly the units they changed, as they are now, with the registered target; selection changes report each unit whose mark changed exactly once, as the registry holds it now, and no unit that is neither of the old nor of the new selection. The hint of a command carries the command as the event that is handed out has it, named as one of the units it reached names it. Events without effect on units report none. A hint's name is that of its kind.",
 over=["histories"], quant="every transition of the reachable states of the worlds of P11, P12 and P13 and of a mixed world of 18 events (quick to depth 5 or 6, thorough 200000 to 300000 states each); one uninterrupted history of up to 20 000 (thorough 400 000) events with every word of 2 to 4 of each world's events in it",
 why="No test looks at a hint.",
 files=["src/tracker_events/state.rs","src/game_events/state.rs","src/state/mod.rs"],
 mech=[("hints","src/tracker_events/state.rs"),("hints","src/game_events/state.rs")],
 technique="explicit-state breadth-first product exploration of the real state machine and a reference model",
 note="The hint of every explored transition is compared with the model's and with the registry after the event."),
dict(id="P09", title="Both event streams merge into one ordered and complete iteration",
 statement="Iterating over a replay reports every event of both streams exactly once: in the order of their loops (the running sum of the deltas of their own stream), the tracker events of a loop before the game events of that loop, and the events of one stream in their own order. Game events of kinds that have no version independent form are not reported, their delta still counts and they end nothing. Game events carry the name of the player of their user when there is one. Each says of which stream it is. After the last event the iteration stays ended.",
 over=["inputs","histories"], quant="all pairs of streams of up to 4 (thorough 5) events with deltas 0 to 2, all mixes with kinds that are not reported, all pairs of short streams over seven delta sizes up to 2^30-1, every pair of a tracker and a game event kind at the same and adjacent loops, one long pair of streams; 2 (thorough 5) builds",
 why="No test runs the iterator; ties, a stream that ends first and skipped kinds decide the order.",
 files=["src/state/mod.rs","src/tracker_events/iterator.rs","src/game_events/iterator.rs"],
 mech=[("merge","src/state/mod.rs:SC2EventIterator::next_event, Iterator for SC2EventIterator")],
 technique="bounded exhaustive enumeration of all interleavings of two event streams, replayed as files on the real iterator",
 note="Every pair of streams is written to a replay file by independent writers and iterated by the real code."),
dict(id="P10", title="Filters select exactly the events they describe and nothing else changes",
 statement="With filters, the iteration reports exactly those events of the unfiltered one that pass, in the same order: loop at least min_loop and at most max_loop; player_id selects game events by user, births, initializations and owner changes by the controlling player, deaths by the killer, statistics, upgrades and set-ups by player, and does not affect type changes, completions and positions; unit_name selects births, initializations and type changes by that name and does not affect others; statistics are reported only with include_stats; max_events ends the iteration after exactly that many reported events. The state the iteration keeps is that of all events up to where it is, filtered or not. Asking for a player by name selects the slot of the player with exactly that name and changes nothing when there is none; the counter of events left goes down to zero and stays there.",
 over=["inputs","histories"], quant="all combinations of 6 player ids, 10 minimum and 10 maximum loops, 5 names, statistics on and off (6000), with event limits 0 to 6 (thorough 0 to 31) and around the number of events, over a history of 29 events with every kind of tracker event; one replay of all pairs of the 29 events with every combination again",
 why="No test uses a filter.",
 files=["src/filters.rs","src/state/mod.rs","src/tracker_events/iterator.rs","src/game_events/iterator.rs"],
 mech=[("filters","src/filters.rs"),("use","src/state/mod.rs:shall_filter_event and the per stream filters")],
 technique="exhaustive enumeration of filter configurations on the real iterator over a file, against a reference predicate",
 note="The event_type and unit_tag filters are not consulted anywhere in the library (unimplemented), so nothing is claimed about them."),
dict(id="P17", title="Flat rows report what happened, as the registry held it then",
 statement="From a replay file, the rows are exactly: one per statistics event and one per upgrade with their player and values; a unit born row per birth (with the event's values, the name of the registered creator and of the owner's player), and per completion or type change of a registered unit (with that unit's name, owner, position and creator ability); a unit died row per death of a registered unit with its name and that of its registered killer; a target point row and a target unit row per registered selected unit for a command with an ability and such a target, with the user, their name, the flags, ability, sequence, group, target values and the unit's name and ability name in the balance data of the replay's own version. Rows are in the order of the events, and carry the event's loop, that loop in whole seconds (68.58391 ms per loop) and the file's number. An iterator that was advanced before gives the rows of the rest, one with filters those of the events that pass them.",
 over=["inputs","histories"], quant="every sequence of 3 (thorough 4) of 25 events after an opening, all pairs of them collected after every number of events and under 35 filters, every single field deviation (two for commands) of the events that rows are made of, in both protocol generations; one replay with every pair (thorough triple) of the 25 events",
 why="No test collects a row.",
 files=["src/tracker_events/arrow_store/unit_born_event_flat_row.rs","src/tracker_events/arrow_store/unit_died_event_flat_row.rs","src/tracker_events/arrow_store/player_stats_flat_row.rs","src/tracker_events/arrow_store/upgrade_event_flat_row.rs","src/game_events/arrow_store/cmd_event_flat_row.rs","src/state/mod.rs"],
 mech=[("collectors","src/state/mod.rs:collect_into_*_flat_rows"),("rows","src/tracker_events/arrow_store, src/game_events/arrow_store")],
 technique="bounded exhaustive enumeration of event histories as replay files on the real collectors against a reference model",
 note="All six collectors run on each file; every column of every row is compared."),
dict(id="P08", title="Damaged or incomplete replays are refused or cut short, never misread",
 statement="Whatever the bytes of a stream (tracker, game, message events, details, initial data, header), reading it ends with a value or an error: it never panics, overflows, loops, or requests memory out of proportion to its size, and neither do the iterators or the state machine that is fed from them. A stream of events that is cut short gives, through the iterators, exactly the events that are whole before the cut, and the readers of whole streams refuse it unless the cut lies between events. A replay that lacks a file or the header, a file that is no replay and a path that does not exist are errors for exactly the readers that need them.",
 over=["inputs","fault_sequences"], quant="every cut of every kind of record in both generations, 17 to 23 (thorough 256) substitutions of every byte, 11 runs of 1 to 16 bytes overwritten, inserted and removed at every position, all streams of up to 2 (thorough 3) bytes, every cut of streams of three events of every kind, every subset of the five files with and without header",
 why="Tests read whole files only; which byte is damaged decides whether a length, tag or offset is believed.",
 files=["src/bit_packed_decoder.rs","src/versioned_decoder.rs","src/lib.rs","src/versions/mod.rs","src/versions/protocol87702/mod.rs","src/versions/protocol75689/mod.rs","src/state/mod.rs","src/tracker_events/iterator.rs","src/game_events/iterator.rs"],
 mech=[("bounds","src/bit_packed_decoder.rs, src/versioned_decoder.rs"),("readers","src/versions/mod.rs"),("iterators","src/tracker_events/iterator.rs, src/game_events/iterator.rs")],
 technique="exhaustive fault injection (all cuts and all small damages of all record kinds) on the real readers",
 note="Overflow checks are on. An allocation limit of 256 MB for inputs of a few kilobytes and a 40 s watchdog catch runaway reads. What the container parser (another crate) does with a broken container is not claimed."),
dict(id="P20", title="Replay discovery finds exactly the replays within its bounds",
 statement="get_matching_files on a directory returns only existing files whose name ends in .SC2Replay and that lie at most max_depth levels below it (1 is the directory itself), each once; never a directory of such a name. It returns min(max_files, all of them) of them; with a limit, which ones is not said. What is no directory has no files, and nothing in a tree (spaces, dots, umlauts, links) makes it fail.",
 over=["inputs","configurations"], quant="every tree of up to 3 entries (replay, other file, directory) with directories nested up to 2 levels (thorough 3), times every file limit up to the number of files + 1 and unlimited and every depth 0 to 5; chains of 1 to 12 levels; a directory of 300 entries with every limit",
 why="Tests contain no directory tree; the limits interact with the order in which directories are listed and with early exits of the recursion.",
 files=["src/lib.rs"],
 mech=[("discovery","src/lib.rs:get_matching_files")],
 technique="bounded exhaustive enumeration of directory trees and limits on the real code in a scratch directory",
 note="Every tree is created on disk and searched with all combinations of limits."),
dict(id="P21", title="Players are joined with their lobby slot and user by the recorded ids",
 statement="The lobby details of a replay are, in the order of the player list of its details, exactly the players whose working set slot id is that of a lobby slot: each with the first such slot, the name and clan tag of the user whose index in the initial data is the slot's user id (empty without user, or without clan), the title, times, cache handles and game description of the replay, the file's name, digest and number and the date of the game. The user rows of a replay are one per user of the initial data in order, with index, name, clan tag (empty if absent) and rating.",
 over=["inputs"], quant="all lists of up to 3 players with 4 slot ids against all lobbies of up to 3 slots with 4 slot ids and 4 user ids (4369 lobbies, thorough 17 000), full lobbies of 1 to 31 slots in (almost) every rotation, and every single field deviation of every record that takes part, in both protocol generations",
 why="Tests join one real replay, in which slot index, slot id and user id coincide.",
 files=["src/details.rs","src/init_data/mod.rs"],
 mech=[("join","src/details.rs:impl TryFrom<&InitData> for Vec<PlayerLobbyDetails>"),("user rows","src/init_data/mod.rs:UserInitDataFlatRow")],
 technique="bounded exhaustive enumeration of lobbies and player lists against a reference join",
 note="All small lobbies and player lists, and every field of the joined records."),
dict(id="P22", title="Flat rows of the details carry every column from its own field",
 statement="The flat row of a joined player has every column from the field it is named after. The cache handle columns: the region and extension are those of the first handle of at least eight bytes (bytes as Latin-1: bytes 0 to 3 are the extension, 6 and 7 the region), the hashes are the hexadecimal rest of all such handles joined with commas; shorter handles are left out; without any, region and extension are absent and the hashes empty. A date outside of what 64 bit nanoseconds since 1970 hold (1677 to 2262) is the default date.",
 over=["inputs"], quant="handles of every length 0 to 48 bytes in four places, every list of up to 3 (thorough 5) of 7 kinds of handles, every byte value at each of the first nine places, every single (thorough two) field deviation of the four records, both generations",
 why="No test looks at a flat row of the details.",
 files=["src/details.rs"],
 mech=[("row","src/details.rs:impl From<PlayerLobbyDetails> for PlayerLobbyDetailsFlatRow")],
 technique="bounded exhaustive enumeration of replays against a reference row",
 note="Whole files are read back through the real readers; every column of every row is compared."),
dict(id="P26", title="Loops become seconds and stored times become dates",
 statement="A game or tracker loop is at the whole number of seconds of loop times 68.58391 ms (up to single precision rounding), never decreasing with the loop, for every loop up to i64::MAX. A stored time (100 ns steps since 1601, any i64) and offset to local time become the calendar date and time of their difference, to the microsecond, and details carry that date.",
 over=["inputs"], quant="every loop below 2^26 (thorough 2^31) and around every power of two; every day from 1601 to 2500, four days second by second, and all pairs of 55 boundary times with 66 offsets",
 why="Tests convert one loop and no date.",
 files=["src/lib.rs","src/details.rs"],
 mech=[("seconds","convert_game_loop_to_seconds, convert_tracker_loop_to_seconds"),("dates","transform_to_naivetime")],
 technique="exhaustive enumeration of the inputs against an independent calendar and rate",
 note="Complete over the loops a game can reach (2^26 loops are 53 days)."),
dict(id="P29", title="Unit tags split into index and recycle count and back",
 statement="For every unit index below 2^14 and recycle count below 2^18, the unit tag is index * 2^18 + recycle, its index and recycle count are the ones it was made of, and so every 32 bit tag is that of exactly one pair.",
 over=["inputs"], quant="all 2^32 pairs",
 why="A test samples one tag.",
 files=["src/tracker_events/mod.rs"],
 mech=[("tags","src/tracker_events/mod.rs:unit_tag, unit_tag_index, unit_tag_recycle")],
 technique="complete enumeration of the 2^32 inputs",
 note="Complete."),
dict(id="P30", title="A saved iteration resumes exactly where it was",
 statement="An iteration over a replay (with or without filters) can be saved at any point, before its first event and after its last too, by cloning the iterator or by serializing it and reading it back: each copy holds the same state, reports from there on exactly the same events and hints in the same order, ends where the original ends and ends in the same state, and the original goes on undisturbed; the counter of max_events is part of what is saved. The same goes for the iterators of a single stream. Every event that is read or reported, the details, the initial data and the filters come back from serialization (JSON) and from cloning equal in every field.",
 over=["histories"], quant="every save point of every history of 2 (thorough 3) of 25 events after an opening with 8 filters in both protocol generations, all sequences of three tracker kinds and all pairs of game kinds at every save point, every single field deviation of every record",
 why="No test serializes anything that was read; a field that is lost shows only in what comes after the save point.",
 files=["src/state/mod.rs","src/state/unit_cmd.rs","src/tracker_events/iterator.rs","src/game_events/iterator.rs","src/filters.rs","src/details.rs","src/init_data/mod.rs"],
 mech=[("iterator","src/state/mod.rs:SC2EventIterator"),("streams","src/tracker_events/iterator.rs, src/game_events/iterator.rs"),("records","src/details.rs, src/init_data/mod.rs, src/tracker_events, src/game_events")],
 technique="bounded exhaustive exploration of every save point of every enumerated history on the real iterators, the copy compared with the uninterrupted run",
 note="The oracle is the uninterrupted run of the same iterator (whose events P09 to P17 decide)."),
dict(id="P31", title="Records, events and rows survive the way to Arrow and back",
 statement="Every tracker and game event, the details (with a date Arrow can hold), the initial data and every flat row (commands at points and at units, statistics, upgrades, births, deaths, players, users) that the library produces comes back equal in every field, in number and in order, when a list of them is turned into an Arrow array and back, directly and through a file written with write_batches: values at the ends of their range, absent and present optional fields in any pattern, empty and non-empty lists and texts, different kinds of events next to each other, empty lists of values.",
 over=["inputs"], quant="every single (thorough: pair of) field deviation(s) of the 10 tracker and 21 game event kinds and of both records, alone and in one array of all; all triples of 20 tracker and all pairs of 42 game samples; the rows of 18 000 histories, alone and in arrays of up to 56 000; all 512 patterns of the shortest and the longest value over nine rows for 12 types",
 why="No test makes an array; what is lost shows only in a field with an unusual value, or in a pattern of absent values next to present ones.",
 files=["src/arrow_store/ipc_writer.rs","src/tracker_events","src/game_events","src/details.rs","src/init_data"],
 mech=[("events","src/tracker_events/mod.rs, src/game_events/mod.rs"),("records","src/details.rs, src/init_data/mod.rs"),("rows","src/tracker_events/arrow_store, src/game_events/arrow_store, src/init_data/arrow_store.rs"),("file","src/arrow_store/ipc_writer.rs:write_batches")],
 technique="bounded exhaustive enumeration of values and of their patterns in an array; the array, and the file read back, are compared with what went in",
 note="The oracle is the identity. Dates outside of 1677 to 2262 are excluded: Arrow's nanoseconds cannot hold them."),
dict(id="P32", title="Records with one thing wrong in their structure are refused",
 statement="A header, details record or tracker event in the tagged form, at any depth, is an error for every reader when a field without a default is missing, a field that has a value comes twice, a field number is unknown, the number of fields is not the one that follows, the type byte of any value is not the one of its field, an alternative is unknown or a number does not fit its field; a game event, a message or initial data (both generations) is an error when an alternative is unknown. The reader of a whole stream refuses a stream with such an event, the iterators end before it. The same records with nothing wrong are read. (A repeated optional field whose first occurrence says that it has no value is not claimed.)",
 over=["inputs"], quant="every single such damage at every place of every shape (present or absent optional parts, alternatives, list lengths up to 3, within one, thorough two, deviations) of headers, details, the 10 tracker events, every game event and message event of both generations, and the initial data of both",
 why="Tests read well formed records; a record that is quietly completed, overridden or read as another alternative looks like a sound one.",
 files=["src/versions/protocol87702/mod.rs","src/versions/protocol75689/mod.rs","src/versioned_decoder.rs","src/bit_packed_decoder.rs","src/versions/mod.rs","src/lib.rs"],
 mech=[("records","src/versions/protocol87702/mod.rs, src/versions/protocol75689/mod.rs"),("type bytes","src/versioned_decoder.rs"),("readers","src/versions/mod.rs")],
 technique="bounded exhaustive enumeration of structural faults injected by the writer of the frozen wire format, on the real readers",
 note="The frozen wire format says which fields, alternatives and ranges there are."),
dict(id="P33", title="What an operation gives depends on its input alone",
 statement="Reading a replay (initial data, streams, iteration with its events, hints and final state, flat rows), scanning a directory, writing a snapshot, loading balance data from JSON, XML or the included assets, parsing map files, and the conversions of loops, times, tags and unit looks give the same result in every process and however often they are called, on whichever thread: an operation before, between the steps of, or interleaved with another one leaves no trace in it, also when the earlier one used the same path, the same names, tags and versions with other contents, or failed. Two iterations stepped in any order each report what they report alone. (Compared as sets: units of a group or of a hint, rows of different replays, files of a listing. The numbers a directory's files get are not compared.)",
 over=["schedules","histories"], quant="39 operations, each in 4 (thorough 16) processes; every ordered pair (thorough: triple) of operations in a process of its own, all pairs one after the other in longer processes, on one thread and on one thread each; all 252 (thorough 3432) interleavings of five pairs of iterations in chunks, on one thread and handed from thread to thread; every operation between any two steps of two iterations",
 why="A test process does a few things once; a cache, a static or the order of a hash map shows only when a second input with the same key follows, or in another process.",
 files=["src/state/mod.rs","src/tracker_events/state.rs","src/game_events/state.rs","src/init_data/mod.rs","src/dir_stats.rs","src/arrow_store/mod.rs","src/game_events/ability/balance_data/mod.rs","src/game_events/ability/balance_data/json_handler.rs","src/lib.rs"],
 mech=[("iteration","src/state/mod.rs:SC2EventIterator"),("state","src/tracker_events/state.rs, src/game_events/state.rs"),("tables","src/arrow_store/mod.rs, src/dir_stats.rs"),("data files","src/game_events/ability/balance_data")],
 technique="bounded exhaustive enumeration of sequences and interleavings of operations on the real code, in fresh processes and across threads, each result compared with that of the operation alone",
 note="The oracle is the same operation alone in a process of its own; whether that is right is decided by the other properties."),
dict(id="P23", title="Map cache files parse to what they say and give back the rest",
 statement="MapInfo, t3HeightMap and DocumentHeader, from bytes or from an archive, have the fields of the recorded layouts (sizes, strings, bounds; dimensions and heights; numbers, mod, name and descriptions, the last of a repeated field) and the parsers return exactly the input that follows. Inputs that end early, have another magic, sizes over 256, bounds that are negative, empty, crossed or outside of the map, heights over 4, dimensions other than those of the map plus one or another mod are errors; nothing panics. Cell, terrain and map coordinates convert exactly (cell corner at the integer, centre at the half, terrain points to the nearest integer).",
 over=["inputs"], quant="all combinations of 12 sizes and 12 bounds, every box in and around every map of up to 4 by 4, every cut, every value of every byte, insertions, removals and 14 numbers at every place of two map infos, a height map and a document header; every unit of every height map of up to 6 by 6 times every byte; all field lists of up to 2 (thorough 3) of 40 fields; every quarter unit of a map of 257",
 why="Tests parse one file of each kind.",
 files=["src/cache_handles/map_info.rs","src/cache_handles/t3_height_map.rs","src/cache_handles/document_header.rs","src/cache_handles/map/coords.rs"],
 mech=[("parsers","src/cache_handles"),("coordinates","src/cache_handles/map/coords.rs")],
 technique="bounded exhaustive enumeration of inputs against reference readers",
 note="Value, failure and rest are compared for every input; terrain_right_top is undocumented and not claimed."),
dict(id="P24", title="Ability commands are named by the unit's own balance data",
 statement="get_indexed_ability_command_name gives, for a unit that is known, the first of: 'ability.command' for an ability of the unit with that index that has a command of that index (without command name the part after the dot is empty), 'Train.unit', 'Build.unit', 'Research.upgrade' for a train, build or research entry with that ability and index; entries without index never match; otherwise, and for a unit that is not known by exactly that name, the name is empty.",
 over=["inputs"], quant="all units with up to 2 abilities (63 kinds; quick: 15 kinds for pairs), up to 2 train and build entries of 9 kinds and up to 1 (thorough 2) researches in 28 000 (thorough several 100 000) combinations times 16 queries; 1120 boundary commands in the four places against 280 queries, names and lists of up to 300 entries; every command of the 7406 included units and the numbers around it",
 why="Tests ask for a few commands of one unit; precedence and absent indexes decide the rest.",
 files=["src/game_events/ability/balance_data/mod.rs"],
 mech=[("names","src/game_events/ability/balance_data/mod.rs:get_indexed_ability_command_name")],
 technique="bounded exhaustive enumeration of units and queries against a reference lookup on the plain data",
 note="The included data is covered in full."),
dict(id="P25", title="Balance data is read as stored, per version, and survives a round trip",
 statement="Reading a JSON directory gives one unit per file of each subdirectory whose name is a number, keyed by that version and the file's name, with that version and every stored field (absent optional parts are none or empty); other directories and files beside them are ignored, a broken or incomplete file is an error. Reading an XML directory (version/BalanceData/*.xml) gives the same from XML, keyed by the unit's id, whatever the order of the elements, remarks, unknown elements and attributes; directories that are no number or have no BalanceData, other extensions and broken files are skipped; what is no directory gives nothing. What is written is read back equal under the key it was written with (names that can be names of files). The included assets are exactly the files of assets/BalanceData.",
 over=["inputs","configurations"], quant="every deviation of up to two of all optional parts, list lengths and boundary values of the record from the minimal, and of one (thorough two) from the full record, in JSON and in 16 styles of XML; every subset of 8 directory names (twice) in 4 layouts; every cut of a file; 512 sets of written units; the 7406 included units",
 why="Tests read single units; the optional parts have thousands of combinations, and the versions must not mix.",
 files=["src/game_events/ability/balance_data/mod.rs","src/game_events/ability/balance_data/json_handler.rs"],
 mech=[("JSON","src/game_events/ability/balance_data/json_handler.rs"),("XML","src/game_events/ability/balance_data/mod.rs:traverse_versioned_balance_abilities")],
 technique="bounded exhaustive enumeration of records and directories against a frozen shape of the data",
 note="Known finding: the effect element of a weapon in XML is not read. Files that are not text abort the XML reader and are not claimed."),
dict(id="P27", title="The header is read in full, and only signature and base build decide",
 statement="read_protocol_header gives every field of the header as recorded and the input that follows. The five readers read a replay exactly if its header has the StarCraft II signature (no byte more, less or other), with the layout of protocol 75689 for base builds up to 75689 and that of 87702 for all later ones, whatever all other fields of the header say; the initial data carries the base build as version. A header that is missing, cut short or of another type is an error of all five readers.",
 over=["inputs","configurations"], quant="every deviation of up to two (thorough three) fields of the header and all walking bits; 18 000 (thorough 400 000) base builds and all boundaries; all values of the one byte fields and all pairs of boundary values of the others at five base builds; every single byte change, cut, removal, insertion at the ends of the signature; every cut of the header",
 why="Tests read replays of two builds.",
 files=["src/protocol_version_decoder.rs","src/versions/mod.rs"],
 mech=[("header","src/protocol_version_decoder.rs:read_protocol_header"),("dispatch","src/versions/mod.rs")],
 technique="bounded exhaustive enumeration of headers on the real readers",
 note="All five readers are run on every header, with files whose bytes differ between the two layouts."),
dict(id="P28", title="Directory statistics count each replay once, the same serially and in parallel",
 statement="The statistics of a directory (ten levels deep) are: the number of replay files; of those whose initial data can be read; of those whose version is one of the balance data; and the ten most frequent player names (observers left out, over all readable details) and maps with their numbers, most frequent first and equally frequent ones by name. Files that are broken, lack a part or have a strange name do not disturb the rest. Working serially or in parallel, with any number of threads, gives the same.",
 over=["inputs","schedules"], quant="every multiset of up to 4 (thorough 6) of 11 kinds of files in 3 directory layouts; every distribution of the frequencies 0 to 3 over 12 names in 2 (thorough 12) arrangements; 200 files with 1, 2, 3 and 8 threads; 1 to 13 levels of directories; 3000 (thorough 70000) files",
 why="Tests scan no directory; ties and broken files decide the order and the counts.",
 files=["src/dir_stats.rs","src/details.rs"],
 mech=[("statistics","src/dir_stats.rs:scan_path")],
 technique="bounded exhaustive enumeration of directories on the real scan against a reference count",
 note="The scheduler of the thread pool is not controlled; the results do not depend on the order because they are collected per file."),
dict(id="P18", title="Arrow files hold every row, whatever the order of the threads",
 statement="A file written for stats, upgrades, unit_born, unit_died, cmd_target_point, cmd_target_unit or details has the schema that schema() gives and reads back to exactly the rows of the sources, value by value: sources that cannot be read add none and disturb none, serially the rows are in the order of the sources, in parallel the rows of a source stay together and in order, whatever the number of threads and the order in which they finish. The shared writer writes each batch that is not empty once (None for an empty one), also under contention; after a thread died with the lock, writes give None and closing is an error. A date no column can hold (outside of 1677 to 2262) becomes the default date.",
 over=["inputs","schedules"], quant="writer: every sequence of up to 4 (thorough 5) of 6 operations, with contention and poisoning; handlers: every list of up to 3 (thorough 4) of 4 kinds of sources, 7 files, serial and parallel; every order of completion of 4 (thorough 5) sources with 4, 2 and 1 threads; every single deviation of the events and details the rows are made of; 2800 dates around the limits; lists of five sources with thousands of rows, six tables",
 why="Tests write no file; which thread finishes first is never controlled.",
 files=["src/arrow_store/mod.rs","src/arrow_store/ipc_writer.rs","src/details.rs"],
 mech=[("writers","src/arrow_store/mod.rs:handle_tracker_events, handle_game_events, handle_details_ipc_cmd, handle_read_once_write_all"),("shared writer","src/arrow_store/ipc_writer.rs")],
 technique="bounded exhaustive enumeration of histories and of the completion orders of the real threads (held back by file leases) against reference rows",
 note="Schedules are controlled where threads meet: at the opening of their sources, one source being released when the rows of the one before are in the file."),
dict(id="P19", title="A snapshot takes the replays within all limits and keeps its files in step",
 statement="handle_arrow_ipc_cmd takes, of the first scan_max_files replay files down to traverse_max_depth, those that can be read and whose version is within min_version and max_version (both included), the first process_max_files of them, with their place among the scanned files as id, and writes the seven files details, stats, upgrades, unit_born, unit_died, cmd_target_point and cmd_target_unit, each with the rows of exactly these replays, replacing older files. Without any replay, and with an output or source that is no directory, it fails and writes nothing. Serially and in parallel, with any number of threads and in any order of reading, the contents are the same (up to the order of the replays).",
 over=["inputs","configurations","schedules"], quant="three trees of six files, up to 6 depths, 5 (thorough 9) values of both limits, 9 bounds on either side; snapshots over snapshots; a tree of 300 replays (some broken, one rare version, equal names) with 60 combinations of limits; every order of reading of 4 among 12 replays with 1, 2, 4 and 8 threads",
 why="Tests write no snapshot; limits and filters only show in combination.",
 files=["src/arrow_store/mod.rs","src/lib.rs"],
 mech=[("command","src/arrow_store/mod.rs:handle_arrow_ipc_cmd, handle_write_snapshot")],
 technique="bounded exhaustive enumeration of limits and reading orders on the real command against a reference selection",
 note="The order of a directory is the file system's; it is taken from get_matching_files, which P20 decides."),
]
