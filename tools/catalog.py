"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""

D = "dashlivesim/dashlib/"
M = "dashlivesim/mod_wsgi/mod_dashlivesim.py"

# id, title, statement, over, quantifier text, why tests can't, files, mechanism [(name, where)]
PROPS = [
 ("C01", "Media segments are served exactly inside their availability window",
  "A numbered media segment is delivered if and only if its number is at least the session's start number and the wall "
  "clock is not before the end of that segment (less the announced availabilityTimeOffset) and not later than one "
  "segment duration plus the time-shift-buffer depth after that end; every other request before, after or outside "
  "the session is answered with an error and never with media. Ordinary sessions starting at the epoch, sessions with an "
  "explicit start, time-shift-buffer, start-number or availabilityTimeOffset option all obey the same rule.",
  ["inputs", "configurations"], "all segment durations, start numbers, start times, buffer depths, offsets, segment numbers and wall-clock times",
  "Tests sample a few (now, number) pairs with two contents; off-by-one errors at window ends need every clock value.",
  [D + "dash_proxy.py", D + "configprocessor.py"],
  [("availability gate", "dash_proxy.get_media / process_media_segment"), ("start number and window parameters", "configprocessor.ConfigProcessor.process_url")]),
 ("C02", "Looped VoD becomes one continuous live timeline",
  "For every requested live segment number the payload is the VoD file number first + (N mod loop length), and its decode "
  "time is the VoD decode time plus a whole number of loop lengths, so that consecutive segments, also across the wrap, are contiguous on "
  "one timeline anchored at the availability start (shifted by the time offset when one is configured). A segment addressed by its "
  "presentation time is the same segment as the one addressed by the number denoting that time.",
  ["inputs", "configurations"], "all contents (durations, timescales, loop lengths, first numbers), all segment numbers and all start options",
  "Tests fetch a handful of segments from two contents and cannot sample far-future numbers, wraps and timescales.",
  [D + "dash_proxy.py", D + "mediasegmentfilter.py"],
  [("number and loop mapping", "dash_proxy.process_media_segment"), ("time offset", "dash_proxy.get_media, mediasegmentfilter.MediaSegmentFilter.process_tfdt")]),
 ("C03", "Rewriting a media segment changes only what it must",
  "A served media segment differs from the stored one only in the sequence number, the decode time, a removed segment index, an "
  "optional last-segment brand, and the sizes and offsets that a widened decode time forces; it is well formed, its data "
  "offsets still point at the same media bytes, and media payload and all other boxes are byte-identical. This holds for every "
  "combination of run fields, decode-time widths, auxiliary offset tables, unknown boxes and numbers of fragments.",
  ["inputs"], "all segment contents of the described box structure, all segment numbers and decode times including the 32-bit boundary",
  "Tests only look at a few bytes of a few segments; the 32/64-bit decode-time switch is sampled once.",
  [D + "mediasegmentfilter.py", D + "mp4filter.py", D + "structops.py"],
  [("box walk and size fix-up", "mp4filter.MP4Filter"), ("field rewriting", "mediasegmentfilter.MediaSegmentFilter.process_*")]),
 ("C04", "The last segment, and only the last, carries the lmsg brand",
  "In a session that ends by durations (dur_) or a modulo period, the segment with the very last number, that of the end of the last duration, "
  "carries the compatible brand 'lmsg' in its segment-type box exactly once, and no other segment carries it, whatever brands the stored segment has. The major brand, minor "
  "version, all other brands and their order are kept, and sessions without an end never carry it.",
  ["inputs", "configurations"], "all brand lists, start times, durations, start numbers and segment numbers",
  "Tests look at one segment of one session; whether a segment is last depends on start, duration, start number and rounding.",
  [D + "mediasegmentfilter.py", D + "dash_proxy.py", D + "configprocessor.py"],
  [("brand filter", "mediasegmentfilter.MediaSegmentFilter.process_styp"), ("last segment numbers", "configprocessor.Config.update_with_aet, dash_proxy.process_media_segment")]),
 ("C05", "Initialization segments are the stored ones with the durations zeroed",
  "An initialization segment is the stored file with the movie, track and media durations set to zero and every other byte "
  "unchanged, for both versions of each header and any number of tracks and unknown boxes. It is delivered if and only if the wall "
  "clock is not before the availability start less the init_ offset.",
  ["inputs", "configurations"], "all header versions, flags, field values, box contents, start times, offsets and wall-clock times",
  "Tests fetch one initialization segment; header versions and durations beyond 32 bits are not in the test content.",
  [D + "initsegmentfilter.py", D + "dash_proxy.py", D + "mp4filter.py"],
  [("duration filter", "initsegmentfilter.InitLiveFilter"), ("init gate", "dash_proxy.get_init, process_init_segment")]),
 ("C06", "Multiplexing two representations loses and mixes nothing",
  "A request for rep1__rep2 is answered with one fragment holding both tracks' live fragments, one media data box with both payloads "
  "in that order, event messages of both, and data offsets that still point at each track's own samples; everything else in the tracks is as served "
  "separately; segments of several fragments keep all of them, in order. The multiplexed initialization segment has the file type and movie header of the first and, in order, the defaults and "
  "tracks of both, with the durations zeroed as in the separate ones, and multiplexed segments obey the availability window of ordinary ones.",
  ["inputs", "configurations"], "all run fields, payload sizes and positions, decode-time widths, header contents, segment numbers and times",
  "Tests multiplex one pair; the offset arithmetic depends on box sizes, versions and on where the samples start.",
  [D + "segmentmuxer.py", D + "dash_proxy.py", D + "configprocessor.py"],
  [("multiplexer", "segmentmuxer.MultiplexInits, MultiplexMediaSegments"), ("composite representation names", "configprocessor.Config.update_with_reps")]),
 ("C07", "Chunked delivery loses nothing",
  "When a media segment is delivered in chunks, its chunks together carry exactly the samples of the stored segment in order: data, duration, size, flags and composition offset of each, at the live decode "
  "time, from all fragments and runs and whatever values come from defaults. Each chunk is a well-formed fragment with its media, has the live number and the track, and what stands before the media (segment type with brands, events) comes with the first.",
  ["inputs", "configurations"], "all sample tables, sizes, flags, signed offsets, default kinds, runs, fragments, data positions, chunk durations and numbers",
  "No test delivers a chunked segment.",
  [D + "chunker.py", D + "mp4.py", D + "boxes.py", D + "dash_proxy.py"],
  [("decoding samples", "chunker.decode_fragment, mp4.trun_box, tfhd_box"), ("writing chunks", "chunker.encode_chunked, boxes.create_moof, TRUNBox")]),
 ("C08", "Low-latency segments are paced as announced",
  "Chunk i of a chunked segment is delivered no earlier than 0.1 s before i chunk durations after the wall-clock start of the segment, and as soon as that if the client takes it, and each chunk ends with the first sample that reaches its end. "
  "The low-latency MPD announces the availability offset from which the segment is served, incomplete segments, and a producer reference time that maps media time to the wall clock of its production, in every kind of session.",
  ["inputs", "schedules", "configurations"], "all instants of request and speeds of the client, start options, offsets, sample durations",
  "Tests check that some attributes occur in one MPD; none receives chunks.",
  [M, D + "dash_proxy.py", D + "chunker.py", D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("pacing", "mod_dashlivesim.application"), ("partition", "chunker.partition"), ("announcement", "mpd_proxy.generate_dynamic_mpd, mpdprocessor.MpdProcessor.update_periods")]),
 ("C09", "A SegmentTimeline lists exactly the window's segments",
  "With segtimeline_1 or segtimelinenr_1 the MPD lists, with their exact media times and durations, exactly the complete segments of the loop that lie in the "
  "time-shift window (from the one containing the window start, or from the session start, to the last one complete now), across loop ends, and none when nothing "
  "is complete. Numbered timelines announce the first listed segment's number; both announce the media time of the period start.",
  ["inputs", "configurations"], "all clock values, buffer depths, start numbers and times, segment durations that tile the loop",
  "Tests compare a few timelines of one content; loop wraps, exact boundaries and empty windows depend on the clock.",
  [D + "segtimeline.py", D + "mpdprocessor.py"],
  [("timeline generation", "segtimeline.SegmentTimeLineGenerator"), ("timeline in the MPD", "mpdprocessor.MpdProcessor.process_mpd")]),
 ("C10", "What the MPD announces is what is served",
  "A player that knows nothing but the MPD gets, under the URLs, numbers and times it computes from it, every segment the MPD says is available at the moment "
  "it asks, with the announced number and with the media time that the MPD's timeline gives it. The same holds for the initialization segments and for every segment "
  "a SegmentTimeline lists. With an availabilityTimeOffset a segment is served from the very moment on from which the MPD announces it.",
  ["inputs", "configurations"], "all segment durations, timescales, loop lengths, session options, clock values at which MPD and segment are fetched, and segment numbers",
  "MPD and segments are computed by different code from the same options; tests check each alone for a few values.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "dash_proxy.py", D + "configprocessor.py", D + "segtimeline.py"],
  [("announcement", "mpd_proxy.generate_dynamic_mpd, mpdprocessor.MpdProcessor"), ("service", "dash_proxy.get_media, process_media_segment, get_init")]),
 ("C11", "Periods tile the presentation and keep their identity",
  "With periods_N every MPD lists periods that follow each other without gap from the start of the time-shift window to beyond the next "
  "update, and the identifier, start, first number and presentation time offset of a period never change between MPDs. Every segment a period announces is served at the announced "
  "time, its decode time less the offset falls inside the period, and the timelines of the periods together are that of the single-period presentation; early termination, continuity "
  "and period-specific options add exactly what they say, and numbers of periods that do not divide the hour are refused. In a session with an end no period starts at the end or later, and after a stop the MPD lists all periods of the session.",
  ["inputs", "configurations", "histories"], "all instants, start times, start numbers, time offsets, and all dividing numbers of periods",
  "Tests look at a few MPDs; overlaps and number jumps at period borders show at particular instants and start options.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py", D + "configprocessor.py"],
  [("periods of an MPD", "mpd_proxy.generate_period_data, get_mpd"), ("writing periods", "mpdprocessor.MpdProcessor.update_periods, process_mpd_children")]),
 ("C12", "Time-limited sessions end when they say they end",
  "In a session with durations or a stop time, the segments served are exactly those from the start number up to the announced end "
  "rounded to whole segments, and nothing is served more than 60 s after the end of a session given by durations. The MPD announces start, end and "
  "presentation duration of one and the same coming end, two update periods ahead, is dynamic until a stop time and static, complete and without "
  "update period after it, and a session given relative to now becomes, by redirection, one fixed absolute session.",
  ["inputs", "configurations"], "all starts, one to three durations, stop times, start numbers, update periods, segment durations and wall-clock times",
  "Tests sample two sessions at a few clock values; the announced and the served end are computed in different places with different rounding.",
  [D + "configprocessor.py", D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("session times", "configprocessor.Config.process_start_time, update_with_aet, stop_number"), ("announced times", "mpd_proxy.generate_dynamic_mpd, mpdprocessor.process_mpd")]),
 ("C14", "URL options take effect wherever they stand, and only they",
  "Every option in the URL has its documented effect on the MPD and the segments, whatever other independent option stands before or after it, and two options give the same "
  "reply in either order. The first path part that is not an option names the content, also with underscores in its name, and later parts are never taken for "
  "options. An option without a value or with an unreadable one, and a name that is neither option nor content, are refused with an explanation.",
  ["inputs", "configurations"], "all pairs of options, their values and the clock; content names and malformed options from a list",
  "Tests set one option at a time at the first position with one value.",
  [D + "configprocessor.py", D + "mpdprocessor.py", D + "mpd_proxy.py", D + "dash_proxy.py"],
  [("option parsing", "configprocessor.ConfigProcessor.process_url"), ("use of the options", "mpd_proxy.generate_dynamic_mpd, mpdprocessor.MpdProcessor")]),
 ("C15", "HTTP replies are complete and tell the truth about their body",
  "Every request, however malformed, gets one reply whose Content-Length is the length of its body, with the cross-origin and no-cache "
  "headers, the media type of what is delivered, and status 200, or 404 with an explanation in plain text for anything unavailable, unknown or unreadable. A single satisfiable "
  "byte range is answered with 206, the exact bytes and a Content-Range naming them; any other range gives the whole body.",
  ["inputs", "configurations"], "all body lengths, range forms and bounds, segment numbers, start times, clock values and a list of malformed requests",
  "Tests try a few ranges on one file; bounds at and beyond the end, suffixes and malformed forms are unbounded in number.",
  [M, D + "dash_proxy.py"],
  [("WSGI application", "mod_dashlivesim.application, start_reply"), ("byte ranges", "mod_dashlivesim.handle_byte_range")]),
 ("C16", "Ad breaks follow their schedule and are announced in time",
  "With scte35_N every break of the schedule of each minute is announced by an emsg box in the video segment that covers the instant 6 s before the break, and otherwise only in segments that touch the two seconds before that instant, always with "
  "the same identifier, splice time and duration on the media timeline; no other segment or media type carries an announcement. The box is well formed and stands after the segment type, at most one per segment, nothing "
  "else of the segment is changed, the MPD announces the event stream, and this holds for all start times, start numbers and time offsets.",
  ["inputs", "configurations"], "all segment numbers, schedules, segment durations of 1 to 10 s, start options, timescales",
  "Tests look at two or three segments; off-by-one errors show at borders of segments and minutes.",
  [D + "mediasegmentfilter.py", D + "scte35.py", D + "emsg.py", D + "mpdprocessor.py"],
  [("break schedule", "mediasegmentfilter.MediaSegmentFilter.create_scte35box"), ("messages", "scte35, emsg")]),
 ("C17", "Live subtitles are shown when their segment plays",
  "In a live subtitle segment every begin and end time of the document is the stored one plus exactly the shift of the segment's decode time, fractions kept; the clock text of the test content names the "
  "shifted instant in UTC and the segment counter the live number. All other text is unchanged, byte by byte. The sizes of the media data box and of the sample, "
  "wherever it is stated, the data offset, number and decode time agree with the new text.",
  ["inputs", "configurations"], "all stored times, numbers, surrounding texts, loop counts, timescales and start times; one sample per segment, clock times in double quotes",
  "Tests retime one document by one offset; hours above 99, growing texts and size fields need all values.",
  [D + "ttml_timing_offset.py", D + "mediasegmentfilter.py", D + "dash_proxy.py"],
  [("retiming", "ttml_timing_offset.adjust_ttml_content"), ("sizes", "mediasegmentfilter.MediaSegmentFilter.update_ttml_mdat, process_tfhd, process_trun")]),
 ("C18", "A simulated outage hits the media of its server and nothing else",
  "A server of a baseurl_ option refuses media segments exactly in the down phases of its schedule in each minute, serves in all others exactly what a server without "
  "losses does, and always serves MPDs and initialization segments; of two servers with opposite schedules one is up at every instant. An MPD with several such options lists one base "
  "URL per option, each selecting exactly that option and all others of the session. With segtimelineloss the timeline ends at the last segment before the outage while the server is down and is the usual one otherwise, "
  "and a segment with the event of a loss is announced by the event stream of that loss in the MPD of the instant.",
  ["inputs", "configurations"], "all instants, schedules, numbers of base URLs and start options",
  "Tests fetch one segment in one phase; borders of phases and minutes need every clock value.",
  [D + "dash_proxy.py", D + "mpd_proxy.py", D + "mpdprocessor.py", D + "configprocessor.py"],
  [("loss schedule", "dash_proxy.get_media"), ("base URLs", "mpdprocessor.MpdProcessor.process_mpd_children, insert_baseurl")]),
 ("C19", "A reply depends only on the request, the clock and the content",
  "The reply to a request - status, headers and body - is a function of the request, the instant at which it is handled and the stored content: no request changes anything that outlives it, so that "
  "any history of earlier requests, refused ones included, and any interleaving with requests of other sessions handled by other threads of the same server leaves the reply as a fresh server would give it. "
  "No stored file is changed.",
  ["schedules", "histories"], "all histories and interleavings of MPD, segment, initialization, remote period, range, limited-session and malformed requests, all numbers in the options and all clock values",
  "Tests run one request after another in one order, each with a fresh provider; a shared object shows only with the right predecessor or preemption.",
  [M, D + "dash_proxy.py", D + "mpd_proxy.py", D + "configprocessor.py", D + "mpdprocessor.py"],
  [("WSGI application", "mod_dashlivesim.application, start_reply"), ("session data", "configprocessor.ConfigProcessor, Config"), ("module state", "all module-level objects")]),
 ("C20", "A requested segment index describes the segment",
  "With sidx_1 a media segment of one representation, delivered as a whole, carries exactly one segment index, right before its first fragment, whose time is that of the first fragment, whose size covers all following "
  "fragments with their media and whose duration is the sum of the durations of all samples on the media timescale. Everything else is as without the option, and without it there is no index, also when the stored segment has one. Multiplexed segments and chunks are as without the option.",
  ["inputs"], "all sample tables, durations given per sample, per fragment or per track, numbers of fragments and runs, unknown boxes, segment numbers",
  "Tests insert an index into one segment with one fragment and one kind of run.",
  [D + "mediasegmentfilter.py", D + "dash_proxy.py"],
  [("index", "mediasegmentfilter.MediaSegmentFilter.finalize, create_sidx"), ("durations", "mediasegmentfilter.MediaSegmentFilter.process_trun, process_tfhd")]),
 ("C21", "Times and durations are written and read as the standard defines them",
  "Every duration and time in an MPD is a valid xs:duration or UTC xs:dateTime that denotes exactly the intended number of seconds, for any number of days, hours, "
  "minutes and seconds. Durations of a stored MPD, with any combination of days, hours, minutes and fractional seconds, are read as the time they denote, and "
  "reading what was written gives the same value back.",
  ["inputs"], "all non-negative numbers of seconds; all durations of the form PnDTnHnMn.nS; all instants",
  "Tests convert a few sample values; carry errors between units appear at exact multiples only.",
  [D + "timeformatconversions.py", D + "mpdprocessor.py", D + "mpd_proxy.py"],
  [("conversions", "timeformatconversions.*"), ("use in the MPD", "mpdprocessor.MpdProcessor, mpd_proxy.generate_dynamic_mpd")]),
 ("C13", "Modulo sessions start, grow and end by the wall clock alone",
  "With modulo_M every player that asks at the same moment sees the same session: one that starts with the current period of M minutes (in the last tenth with the next) "
  "and announces 20, then 40, 60 and 80 percent of the period as the clock passes 10, 30 and 50 percent, with an update period of a twentieth and an end one update period after the last media. "
  "The announced end only moves forward and always more than two update periods ahead until the final one, and exactly the announced segments are served, the last announced one marked 'lmsg'; combining modulo with a start time is refused.",
  ["inputs", "configurations"], "all instants, start numbers and segment numbers; periods of 1 to 60 minutes (listed values) and typical segment durations",
  "Tests sample a handful of instants of one period length; the boundaries between phases and periods need every second.",
  [D + "moduloperiod.py", D + "configprocessor.py", D + "dash_proxy.py"],
  [("phases and session data", "moduloperiod.ModuloPeriod"), ("use in the session", "configprocessor.Config.update_with_modulo_period")]),
 ("C22", "A remote period is the period it stands for",
  "With xlink_M exactly the periods whose number is a multiple of N/M are links in the MPD, followed on loading, each of which resolves to a well-formed period equal to "
  "the one that the MPD without links has there; all else of the MPD is unchanged. With insertad the periods whose turn it is, except the first, are ad links, the period before has its duration and content periods are "
  "identified. Links that do not fit the periods, ads without links and periods that are not there now are refused.",
  ["inputs", "configurations"], "all instants, period numbers, numbers of periods and links, start options, base URLs, content that contains texts like identifiers",
  "Tests count periods for one instant; whether a text that looks like an identifier occurs earlier depends on the period number and on the content.",
  [D + "mpd_proxy.py", D + "mpdprocessor.py"],
  [("links", "mpd_proxy.generate_response_with_xlink"), ("durations", "mpd_proxy.generate_period_data")]),
 ("C23", "The analysed description of content is what is stored",
  "For content that loops (the same number and duration of segments everywhere, the ends of segments within 0.09 s of their nominal place), the analyser writes a configuration and timing files which the server reads back as that content: "
  "first segment, segment duration, the segments that all representations have, representations, timescale, and for every segment in the loop exactly its start and duration. "
  "Content with missing segments, different first segments, timescales or drifting durations is refused without a configuration.",
  ["inputs", "configurations"], "all timescales, starts, sample/fragment/track durations, gaps, numbers of segments per representation, box versions",
  "The tests have no analyser test beyond reading existing files; run-length coding fails only for certain patterns of durations and gaps.",
  ["dashlivesim/vodanalyzer/dashanalyzer.py", "dashlivesim/vodanalyzer/mpdprocessor.py", D + "configprocessor.py"],
  [("runs of equal durations", "dashanalyzer.checkAndUpdateMediaData"), ("loop end", "dashanalyzer.checkAndUpdateMediaData")]),
 ("C24", "Session length limits redirect once and then hold",
  "When the server limits session lengths, an MPD request outside a session is redirected once to the same URL in a session that starts now, with scheme, host and query kept, and everything else outside a session is not found. "
  "Inside a session everything is delivered as without the limit until its length has passed and is gone (410) afterwards; a session that starts more than five seconds in the future is not found. "
  "The MPD delivered in a session points the player to URLs in the same session, and without a limit session parts of a URL change nothing.",
  ["inputs", "schedules"], "all limits, clock values, session starts, URLs with and without options and queries",
  "Tests try one redirect; the boundary instants and the behaviour of the redirected session over time are not sampled.",
  [M, D + "sessionid.py"],
  [("redirect and limit", "mod_dashlivesim.application")]),
 ("C25", "What the stored MPD says about the content is passed on",
  "Every element, attribute and text of the stored MPD that describes the content (adaptation sets, representations, descriptors, content protection, roles, labels, metrics and so "
  "on, in any namespace and language) stands in the live MPD, in the same place and order, in every period. Only the listed live attributes are changed or removed, and only elements that an option or the live service calls for are added.",
  ["inputs", "configurations"], "all combinations of descriptive elements and attribute values, with all options that restructure the MPD",
  "Tests compare a few attributes of two stored MPDs.",
  [D + "mpdprocessor.py", D + "mpd_proxy.py"],
  [("rewriting", "mpdprocessor.MpdProcessor.process, process_mpd_children, update_periods"), ("serialising", "mpdprocessor.MpdProcessor.get_full_xml")]),
 ("C26", "Thumbnails follow the timing of the media segments",
  "A thumbnail of a live number is delivered exactly when a media segment of that number would be, in every kind of session, and is the stored image at the number's place in the VoD loop, unchanged, with media type image/jpeg. "
  "Requests outside the window are answered with an error and never with an image.",
  ["inputs", "configurations"], "all segment durations, loop lengths, session kinds, numbers, times and images",
  "Tests fetch one thumbnail at one time.",
  [D + "dash_proxy.py", M],
  [("thumbnail timing and mapping", "dash_proxy.process_thumbnail, get_media")]),
]

LEVELS = {}
NOTES = {}
NOT_APPLICABLE = {}
