#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (authoring aid; the JSONL file is what counts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Article decoding returns exactly the posted bytes",
 "For every binary content encoded as a well-formed yEnc article (single or multi part) or uuencoded article, decoding the article body yields exactly the original bytes and the declared filename, part range, total size and checksum, and signals the end of the article. The result does not depend on how the body is split into network reads nor on which CPU-specific decoder is used.",
 ["inputs","histories"], "all contents, line lengths, escaping choices, header forms and all splits of the byte stream into reads; every decoder implementation available on the CPU",
 "The suite decodes a few files through the functional download tests with one decoder and whatever segmentation loopback TCP happens to give; block borders inside escape, dot-stuffing and end sequences are never enumerated.",
 ["daemon/nntp/Decoder.cpp","lib/yencode/SimdDecoder.cpp","lib/yencode/ScalarDecoder.cpp","lib/yencode/SimdInit.cpp"],
 [("line mode / block mode state machine","daemon/nntp/Decoder.cpp: DecodeBuffer, DecodeYenc, DecodeUx"),("SIMD kernels and scalar fallback with carried state","lib/yencode: YEncode::decode")],
 [("m_state","decoder state carried between reads","Decoder.h")],
 ["Decoder::DecodeBuffer output bytes, GetArticleFilename/BeginPos/EndPos/Size/Eof, Check()"])

prop("C02", "A damaged article is never accepted as good, a good one never refused",
 "With CRC checking on, a yEnc article body that is cut short, that lost, gained or changed payload bytes, or that holds no encoded data is never reported as successfully decoded, unless its decoded payload still matches the size and checksum its trailer declares. A body whose decoded payload matches its trailer is reported as successfully decoded, and decoding arbitrary bytes always ends without memory errors.",
 ["inputs","fault_sequences"], "all damage (truncation, byte flips, drops, duplications, foreign data, bad trailers) applied to all articles, all segmentations, and arbitrary byte strings",
 "Functional tests use one deliberately bad article; the space of corruptions and of hostile bodies is unbounded.",
 ["daemon/nntp/Decoder.cpp","daemon/nntp/ArticleDownloader.cpp"],
 [("CheckYenc size/CRC comparison","daemon/nntp/Decoder.cpp: CheckYenc"),("DecodeCheck","daemon/nntp/ArticleDownloader.cpp")],
 observe=["Decoder::Check() status","sanitizer reports"])

prop("C03", "CRC-32 is exact for every split, alignment and implementation",
 "The CRC-32 computed incrementally over any segmentation of any data equals the standard CRC-32 of the whole, for every CPU-specific implementation. Combining the checksums of two adjacent blocks with the length of the second equals the checksum of their concatenation for all block lengths.",
 ["inputs"], "all data, all lengths and alignments, all splits, all block lengths up to 2^31",
 "No unit test covers CRC code; functional tests see only whole articles of a few sizes.",
 ["lib/yencode/SliceCrc.cpp","lib/yencode/PclmulCrc.cpp","daemon/util/Util.cpp"],
 [("crc_incr / crc_finish","lib/yencode"),("Crc32::Combine","daemon/util/Util.cpp")],
 observe=["Crc32::Append/Finish/Combine results"])

prop("C04", "Completed downloads are byte-identical to what was posted",
 "When every article of a queued item can be fetched intact, each file delivered to the destination directory is byte-for-byte the posted file under its proper name, and no other files appear there. This holds for any article order and concurrency and any setting of article cache, direct write, write buffer, CRC check, intermediate directory and connection count; the item is then reported as successful with full health.",
 ["inputs","schedules","configurations"], "all file sets, article splittings, encodings, server response timings and fragmentations, and all combinations of the listed options",
 "The functional tests download a handful of fixed files with about four option sets; orderings, sizes around buffer borders, uneven parts and option combinations are not explored.",
 ["daemon/nntp/ArticleWriter.cpp","daemon/nntp/ArticleDownloader.cpp","daemon/queue/QueueCoordinator.cpp","daemon/connect/Connection.cpp"],
 [("CompleteFileParts / FlushCache / DirectWrite","daemon/nntp/ArticleWriter.cpp"),("article scheduling and completion","daemon/queue/QueueCoordinator.cpp")],
 observe=["files in DestDir after history entry appears","history RPC: Status, Health, article counters"])

prop("C05", "Losses are accounted exactly and intact data is kept in place",
 "Articles that no server can deliver intact are counted as failed, exactly those and no others, and the item's health and success/failed article counts and the completed file's reported state reflect exactly that. The bytes of all delivered articles still appear at their correct offsets in the delivered file, and an item with missing content data (data outside of par-files) that was not repaired is never reported as a full success.",
 ["inputs","fault_sequences","configurations"], "all subsets of articles missing, damaged or truncated on the servers; all option combinations",
 "The suite has two fixed damage patterns; which subset of articles fails, and how, is not enumerated.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/nntp/ArticleWriter.cpp","daemon/queue/DownloadInfo.cpp"],
 [("ArticleCompleted accounting","daemon/queue/QueueCoordinator.cpp"),("CalcHealth","daemon/queue/DownloadInfo.cpp")],
 observe=["history RPC: Health, FailedArticles, SuccessArticles, Status","bytes of delivered file"])

prop("C06", "An article fails only after every usable server was tried in order",
 "An article is given up only after every active server that could still serve it has refused or damaged it, and it succeeds if any such server can deliver it. Backup-level servers are asked only after every usable main-level server (counting a group of same-level servers as one) has failed for that article, and inactive servers, zero-connection servers, out-of-retention servers and failed members' group peers are not asked for it.",
 ["inputs","fault_sequences","configurations"], "all server sets (levels incl. gaps, groups, optional, active, retention, connections) and all per-server fault patterns for all articles",
 "Functional tests use at most two servers with one fault pattern; unit tests cover connection hand-out only.",
 ["daemon/nntp/ArticleDownloader.cpp","daemon/nntp/ServerPool.cpp"],
 [("server loop with failedServers and level","daemon/nntp/ArticleDownloader.cpp: Run"),("level normalisation","daemon/nntp/ServerPool.cpp")],
 observe=["requests logged by the scripted news servers","history RPC counters and ServerStats"])

prop("C07", "Connection pool respects limits, levels, groups and blocks",
 "At any time at most the configured number of connections per server is in use, and every connection handed out belongs to an active server of the requested level (and of the wanted server or its group, if given) that is neither ignored nor in an ignored group, nor blocked (unless it still has an open idle connection). A request is refused only when no such free connection exists, and a returned connection becomes available again.",
 ["histories","configurations"], "all server configurations and all sequences of get, free, block, time passing, activation changes and re-initialisation",
 "Unit tests walk a few fixed sequences; the state space of interleaved get/free/block/reconfigure histories is unbounded.",
 ["daemon/nntp/ServerPool.cpp","daemon/nntp/ServerPool.h"],
 [("GetConnection / FreeConnection / BlockServer / InitConnections","daemon/nntp/ServerPool.cpp")],
 observe=["ServerPool public API"])

prop("C08", "NZB files are read faithfully and hostile ones are harmless",
 "For every well-formed NZB file the queued item holds exactly its files with their groups, dates, article ids, part numbers and sizes, counts absent part numbers as failed articles, and derives safe file names from the subjects; content hashes do not depend on the order of elements. Malformed or hostile input is rejected or read partially without crash, hang or unbounded memory use.",
 ["inputs"], "all NZB documents: any number of files, groups, segments in any order, gaps, duplicates, subjects, entities, metadata; and arbitrary byte strings",
 "Unit tests parse six fixed NZB files.",
 ["daemon/queue/NzbFile.cpp","daemon/queue/DownloadInfo.cpp"],
 [("SAX handlers, ParseSubject, BuildFilenames, CalcHashes","daemon/queue/NzbFile.cpp")],
 observe=["NzbFile::Parse result and NzbInfo contents"])

prop("C09", "Queue, history, feed and statistics state survives save and reload",
 "Whatever the content of the download queue, history, feed history, server statistics and per-file article state, writing it to disk and loading it back yields an equal state: same items in the same order with the same attributes, parameters, messages, completed files and counters. Text with any characters survives.",
 ["inputs","histories"], "all reachable queue/history/feed/statistics states including arbitrary text attributes and 64-bit sizes",
 "No test covers the disk state module at all.",
 ["daemon/queue/DiskState.cpp","daemon/queue/DownloadInfo.h"],
 [("Save*/Load* pairs","daemon/queue/DiskState.cpp")],
 observe=["field-by-field dump of the loaded state"])

prop("C10", "A crash while saving never loses the previous state",
 "If the program is killed, or any write or rename fails, at any point while state files are being saved, the next start loads either the complete previous state or the complete new state of each file, never a mixture and never nothing. With FlushQueue enabled this also holds when data not yet synced to disk is lost.",
 ["crash_points","fault_sequences"], "all crash points (every file-system operation, every prefix of unsynced writes) during saves of all state files over all old/new states",
 "Tests never interrupt a save.",
 ["daemon/queue/DiskState.cpp","daemon/util/FileSystem.cpp"],
 [("StateFile write to .new, flush, sync, rename","daemon/queue/DiskState.cpp: StateFile")],
 observe=["state loaded after a simulated crash"])

prop("C11", "Killing the program mid-download loses no work and corrupts nothing",
 "If the program is killed at any moment and restarted, every queued and finished item is still in the queue or history exactly once, paused/priority/name/category settings made before the last completed save survive, and unfinished downloads continue to completion. The files finally delivered are byte-identical to what was posted.",
 ["crash_points","schedules","configurations"], "all kill points during adding, downloading, assembling, editing and post-processing, repeated kills, and all storage options with ContinuePartial on or off",
 "Tests only stop the program when idle.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/queue/DiskState.cpp","daemon/nntp/ArticleWriter.cpp","daemon/main/nzbget.cpp"],
 [("Load, partial state, cache flag discard","daemon/queue/DiskState.cpp: LoadFileState, CacheFlag"),("Load","daemon/queue/QueueCoordinator.cpp")],
 observe=["RPC listgroups/history after restart","delivered files"])

prop("C12", "Queue editing commands do exactly what they say",
 "Every queue edit command (move, pause, resume, delete, priority, category, name, parameter, duplicate attributes, sort, merge, split, file reorder, par pausing) applied to any selection by id, name or pattern changes exactly the selected items in the documented way and leaves all others and their relative order untouched. No sequence of commands loses or duplicates a file; an unknown id or name changes nothing.",
 ["histories","inputs"], "all sequences of edit commands with all selections (including empty, repeated, unknown and mixed ids, names, regular expressions) over all queues",
 "Functional tests cover only two move scenarios.",
 ["daemon/queue/QueueEditor.cpp","daemon/remote/XmlRpc.cpp"],
 [("PrepareList, InternEditList and the per-command helpers","daemon/queue/QueueEditor.cpp")],
 observe=["RPC listgroups/listfiles before and after each editqueue"])

prop("C13", "Queue totals always agree with the files they summarise",
 "At every moment the sizes, remaining, paused, failed and par sizes, file counts and active flags reported for an item equal what its listed files and its article results add up to, and the global remaining size equals the sum over items. No counter becomes negative and after completion remaining counters are zero.",
 ["histories","schedules"], "all histories of adding, pausing, deleting, splitting, merging, downloading with successes and failures, restarting",
 "Unit tests check counters only right after NZB parsing of fixed files.",
 ["daemon/queue/DownloadInfo.cpp","daemon/queue/QueueCoordinator.cpp","daemon/queue/QueueEditor.cpp","daemon/remote/XmlRpc.cpp"],
 [("UpdateCurrentStats / UpdateCompletedStats / SetPaused deltas","daemon/queue/DownloadInfo.cpp")],
 observe=["RPC listgroups, listfiles, status"])

prop("C14", "History commands keep every record consistent and recoverable",
 "An item leaving the queue appears in history exactly once, newest first, with the name, category, parameters and sizes it had; delete hides or removes exactly the chosen records, and return, download-again and mark act exactly on the chosen item. Downloading again or retrying failed articles brings the item back to the queue with all its files, and finally yields the same content as a first download.",
 ["histories","inputs"], "all sequences of history commands on all histories, followed by re-downloads with any server state",
 "Functional tests cover two retry scenarios with one fixed file set.",
 ["daemon/queue/HistoryCoordinator.cpp"],
 [("Redownload, Retry, Return, Delete, HistoryHide","daemon/queue/HistoryCoordinator.cpp")],
 observe=["RPC history, listgroups, delivered files"])

prop("C15", "Duplicate handling keeps the best copy and never fetches twice",
 "With duplicate checking on, an item whose content equals a queued or recorded one is not downloaded again, a duplicate title with same or lower score than a queued or successful one is only kept as backup, one with a higher score replaces a queued one, and titles marked good block all further duplicates; the SCORE, ALL and FORCE modes differ exactly as documented. If the chosen copy fails or is marked bad, the backup with the highest score not below what already succeeded is downloaded next.",
 ["histories","inputs"], "all sequences of adding items with arbitrary names, duplicate keys, scores and modes, of download outcomes and of mark commands",
 "Functional tests cover two copy scenarios; the rules interact over histories.",
 ["daemon/queue/DupeCoordinator.cpp","daemon/queue/HistoryCoordinator.cpp","daemon/queue/QueueCoordinator.cpp"],
 [("NzbFound, NzbCompleted, ReturnBestDupe, HistoryMark","daemon/queue/DupeCoordinator.cpp")],
 observe=["RPC history/listgroups statuses after each step"])

prop("C16", "Feed filters mean what the documentation says",
 "For every filter and every feed item, the verdict (accepted, rejected, ignored, options such as category, pause, priority, score, key and mode, including rule references) is the one given by the documented filter language: rules tried in order, terms with wildcards, words, substrings, regular expressions, numeric, size and age comparisons, field names, negation and OR groups. Rules with errors are skipped, and no filter text causes a crash or memory error.",
 ["inputs","programs"], "all filter programs and all feed items",
 "One unit test with one-liners on a single item.",
 ["daemon/feed/FeedFilter.cpp","daemon/feed/FeedCoordinator.cpp"],
 [("Rule and Term compile/match","daemon/feed/FeedFilter.cpp")],
 observe=["FeedFilter::Match result on FeedItemInfo"])

prop("C17", "Each feed item is taken exactly once and feed content is read faithfully",
 "For every RSS document all items are read with the title, link, size, date, category and attributes they declare, and hostile documents are handled without crash. Over any history of fetches, restarts and changing documents each new accepted item is added to the queue exactly once, also when the feed repeats it, and with backlog off the items of the first fetch are not added.",
 ["inputs","histories"], "all RSS documents and all sequences of fetches, document changes, failures and restarts",
 "Feed fetching has no test.",
 ["daemon/feed/FeedFile.cpp","daemon/feed/FeedCoordinator.cpp","daemon/feed/FeedInfo.cpp"],
 [("SAX parser","daemon/feed/FeedFile.cpp"),("feed history and FilterFeed/ProcessFeed","daemon/feed/FeedCoordinator.cpp")],
 observe=["RPC viewfeed, listgroups, history","requests seen by the scripted web server"])

prop("C18", "Par repair restores the originals or reports failure honestly",
 "Given a par2 set and any damage (missing, truncated, altered, shifted, renamed or foreign files, missing recovery volumes), verification reports repair-not-needed only if all protected files are intact; repair succeeds whenever the remaining recovery blocks suffice and then all protected files equal the originals. If they do not suffice failure is reported, intact files are left unchanged, and hostile par2 files cause no crash.",
 ["inputs","fault_sequences","configurations"], "all file sets, block sizes, redundancies and damage patterns, thread counts, full/quick modes; arbitrary par2 bytes",
 "Unit tests use one fixed par set with five fixed damages.",
 ["daemon/postprocess/ParChecker.cpp","lib/par2/par2repairer.cpp","lib/par2/filechecksummer.h","lib/par2/reedsolomon.h"],
 [("verification by block hash/crc, Reed-Solomon repair","lib/par2"),("Repairer integration, splitted files, dupe files","daemon/postprocess/ParChecker.cpp")],
 observe=["ParChecker::GetStatus and file contents"])

prop("C19", "Quick verification by download checksums agrees with full verification",
 "Verification that relies on checksums collected while downloading gives the same verdict and repair result as verification that reads the files: it never accepts a file whose bytes differ from the protected original and never demands repair of an intact one. The checksum recorded for a completed file equals the CRC-32 of its bytes on disk.",
 ["inputs","fault_sequences","configurations"], "all file sets, damage patterns and article splittings, with complete, partial and missing checksum information",
 "Unit tests use one fixed data set with two patterns.",
 ["daemon/postprocess/ParChecker.cpp","daemon/nntp/ArticleWriter.cpp","daemon/queue/DiskState.cpp"],
 [("VerifyDataFile / VerifySuccessDataFile / VerifyPartialDataFile","daemon/postprocess/ParChecker.cpp"),("crc accumulation","daemon/nntp/ArticleWriter.cpp: CompleteFileParts")],
 observe=["ParChecker::GetStatus in both modes"])

prop("C20", "Renaming restores original names and never loses data",
 "For every directory of obfuscated files with an intact par2 set or RAR volume set, renaming gives each recognised file its original (or correctly sequenced) name and leaves every unrecognised file alone. The multiset of file contents in the directory is unchanged by renaming: no file is overwritten, deleted or moved out of the directory, whatever names already exist.",
 ["inputs","configurations"], "all file sets, obfuscations, name clashes, several sets, missing or damaged files, RAR3/RAR5 old and new numbering, hostile names inside par2 files",
 "Unit and functional tests cover about 25 fixed layouts.",
 ["daemon/postprocess/ParRenamer.cpp","daemon/postprocess/RarRenamer.cpp","daemon/queue/DirectRenamer.cpp"],
 [("CheckFiles by MD5-16k, RenameBadParFiles, MakeSets","daemon/postprocess/ParRenamer.cpp, RarRenamer.cpp")],
 observe=["directory listing and contents before/after"])

prop("C21", "RAR volumes are described correctly and hostile bytes are harmless",
 "For every RAR3 or RAR5 volume the reader reports the version, volume number, numbering scheme, encryption and the file entries (name, size, split flags) that its headers contain, and rejects files that are not RAR volumes. Reading arbitrary or truncated bytes ends without crash, hang, or unbounded memory use.",
 ["inputs"], "all RAR3/RAR5 header sequences (generated) and arbitrary byte strings, with and without password",
 "Unit tests read eight fixed archives.",
 ["daemon/postprocess/RarReader.cpp"],
 [("ReadVersion, ReadRar3Volume, ReadRar5Volume","daemon/postprocess/RarReader.cpp")],
 observe=["RarVolume public getters"])

prop("C22", "Unpacking delivers all contents and never destroys unextracted data",
 "When the archives of an item are complete and correct, post-processing delivers every contained file with exact content and relative path, and removes archives only if the cleanup option says so. When extraction fails or is impossible, the item is reported as failed or not unpacked, all downloaded files are still present unchanged, and no partially extracted files are left.",
 ["inputs","fault_sequences","configurations"], "all archive sets (7z, zip, rar, split volumes, several archives, with other files alongside), damages, extractor failures and cleanup options",
 "Functional tests cover one archive with three damages.",
 ["daemon/postprocess/Unpack.cpp","daemon/postprocess/DirectUnpack.cpp","daemon/postprocess/Cleanup.cpp","daemon/postprocess/PrePostProcessor.cpp"],
 [("CheckArchiveFiles, ExecuteUnrar/SevenZip, Cleanup","daemon/postprocess/Unpack.cpp")],
 observe=["destination directory and history status"])

prop("C23", "Nothing is written or deleted outside the configured directories",
 "No file name, path, category, NZB name, feed title, archive-set or par2 file name coming from outside, however hostile (separators, dot-dot, absolute, control characters, overlong), makes the program create, overwrite, rename or delete a file outside its configured directories. Names derived from such input contain no reserved characters.",
 ["inputs"], "all strings in all name positions: NZB file name and subject, yEnc and UU names, category, append name, rename and set-name commands, par2 entries, RPC savefile paths",
 "Tests use benign names.",
 ["daemon/util/FileSystem.cpp","daemon/queue/DownloadInfo.cpp","daemon/nntp/ArticleDownloader.cpp","daemon/postprocess/ParRenamer.cpp","daemon/queue/Scanner.cpp"],
 [("MakeValidFilename","daemon/util/FileSystem.cpp"),("BuildDestDirName","daemon/queue/DownloadInfo.cpp")],
 observe=["snapshot of the surrounding directory tree; results of name sanitising"])

prop("C24", "Remote access requires credentials and respects user roles",
 "With a control password set, no RPC method in any protocol form (JSON, JSON-P, XML, GET or POST, URL credentials, cookie, binary) is executed for a client without valid credentials, except from an authorised IP. The restricted user can use everything except saving settings, and never sees passwords or other secret options; the add-user can only add downloads and ask for the version.",
 ["inputs","configurations"], "all requests (method, protocol, credential forms and near-misses, duplicated headers, odd URLs) against all credential configurations",
 "No test covers authentication.",
 ["daemon/remote/WebServer.cpp","daemon/remote/XmlRpc.cpp","daemon/remote/BinRpc.cpp"],
 [("CheckCredentials","daemon/remote/WebServer.cpp"),("access checks in CreateCommand","daemon/remote/XmlRpc.cpp")],
 observe=["HTTP responses and resulting state of the daemon"])

prop("C25", "The web server serves only files of the web directory, correctly",
 "For every request URL the web server answers either with the exact content of a file below the configured web directory or with an error; no URL form discloses another file. Content is the same with and without compression, with conditional requests answered not-modified exactly when the content is unchanged, and over kept-alive connections each request gets exactly its own response.",
 ["inputs","histories"], "all URL strings, header combinations and request sequences on one connection",
 "No test covers the web server.",
 ["daemon/remote/WebServer.cpp"],
 [("Dispatch URL whitelist","daemon/remote/WebServer.cpp"),("SendBodyResponse, ETag and gzip","daemon/remote/WebServer.cpp")],
 observe=["HTTP responses"])

prop("C26", "RPC answers are well-formed and identical in every protocol form",
 "For every state of the program and every call, the JSON, JSON-P and XML-RPC answers are well-formed and carry the same values; strings set through one call come back unchanged from others, whatever characters they contain that the formats can represent. Requests are understood identically in JSON and XML, with positional parameters and ids echoed.",
 ["inputs","histories"], "all methods and all text contents of names, categories, parameters, log messages; all legal encodings of requests",
 "Unit tests cover a few decode helpers; functional tests use plain ASCII XML-RPC.",
 ["daemon/remote/XmlRpc.cpp","daemon/util/Util.cpp"],
 [("XmlEncode/JsonEncode/Decode","daemon/util/Util.cpp"),("command classes","daemon/remote/XmlRpc.cpp")],
 observe=["RPC responses parsed by independent parsers"])

prop("C27", "No remote byte sequence crashes or wedges the program",
 "Whatever bytes arrive on the control port (HTTP, RPC or binary protocol, complete or broken off at any point), or as news-server, feed or URL-server responses, the program neither crashes nor corrupts memory nor stops answering later well-formed requests. Malformed requests get an error or a closed connection and change no state.",
 ["inputs","fault_sequences"], "all byte streams on all network interfaces, with disconnects at any point",
 "Tests send only well-formed traffic.",
 ["daemon/remote/RemoteServer.cpp","daemon/remote/WebServer.cpp","daemon/remote/XmlRpc.cpp","daemon/remote/BinRpc.cpp","daemon/connect/Connection.cpp","daemon/nntp/NntpConnection.cpp","daemon/connect/WebDownloader.cpp","daemon/util/Util.cpp"],
 [("header/URL/JSON/XML/base64 decoding helpers","daemon/util/Util.cpp, daemon/remote"),("MessageBase validation","daemon/remote/BinRpc.cpp")],
 observe=["sanitised daemon stays alive and answers"])

prop("C28", "Options are read, substituted, saved and reported faithfully",
 "Every option value in the configuration file or command line, in any letter case and order, takes effect as documented: later settings win, ${variables} expand, defaults apply when absent, and invalid names or values are reported. Saving a configuration through the API and loading it back returns the same names and values, and reading options never alters them.",
 ["inputs","configurations"], "all configuration files and command-line overrides, all values including quotes, spaces, unicode, references and cycles",
 "Unit tests check four fixed cases.",
 ["daemon/main/Options.cpp","daemon/extension/ScriptConfig.cpp","daemon/main/CommandLineParser.cpp"],
 [("SetOption, SplitOptionString, GetOption with ${} expansion","daemon/main/Options.cpp"),("LoadConfig/SaveConfig","daemon/extension/ScriptConfig.cpp")],
 observe=["Options getters; RPC config/loadconfig/saveconfig"])

prop("C29", "Scheduled tasks run exactly when due",
 "Every scheduler task runs once at each of its configured times on its configured weekdays, in order of time, including wildcard hours and several times per task, and never otherwise. Clock steps and pauses between checks do not run a task twice, and on start the last effective pause and speed state of the preceding schedule is applied as documented.",
 ["histories","schedules","configurations"], "all task sets and all sequences of clock readings (steps forward and back, gaps, midnight and week borders)",
 "The scheduler has no test.",
 ["daemon/main/Scheduler.cpp","daemon/main/Options.cpp"],
 [("CheckTasks, PrepareLog, CheckScheduledRes","daemon/main/Scheduler.cpp")],
 [("m_lastCheck, LastExecuted","last evaluated minute","Scheduler.h")],
 ["effects on work state under a simulated clock"])

prop("C30", "Traffic volumes and quotas are counted exactly",
 "Bytes received from each news server are added exactly once to the per-second, minute, hour and day volumes and totals of that server and of the sum, sliding windows drop only expired slots, and totals survive restart. The quota-reached state holds exactly when the traffic of the current day or billing month reaches the configured quota.",
 ["histories","schedules"], "all sequences of traffic, clock readings (including steps and time-zone-correct day borders), counter resets, and reloads",
 "Statistics have no test.",
 ["daemon/nntp/StatMeter.cpp","daemon/nntp/StatMeter.h"],
 [("ServerVolume::AddData/CalcSlots","daemon/nntp/StatMeter.cpp"),("CheckQuota, CalcMonthlyQuotaUsage","daemon/nntp/StatMeter.cpp")],
 observe=["ServerVolume getters, WorkState quota flag under simulated clock"])

prop("C31", "Extension scripts get exact data and their verdict is honoured",
 "Every extension script selected for an item runs once per its event in configured order, receives the item's name, directory, category, status, options and parameters unaltered whatever characters they contain, and nothing in them is interpreted by a shell. The exit code of post-processing scripts and the commands they print decide the item's script status and parameters as documented.",
 ["inputs","configurations"], "all script sets, orders, exit codes, output lines and item attributes",
 "No test runs extension scripts.",
 ["daemon/extension/PostScript.cpp","daemon/extension/NzbScript.cpp","daemon/util/Script.cpp","daemon/extension/QueueScript.cpp","daemon/extension/ScanScript.cpp"],
 [("environment building, AddMessage parsing, exit code mapping","daemon/util/Script.cpp, daemon/extension")],
 observe=["environment dumps written by generated scripts; history RPC"])

prop("C32", "Every NZB dropped or appended is queued exactly once with its attributes",
 "Each NZB file put in the incoming directory or its category subdirectories, or sent by the append call, is added to the queue exactly once with the name, category, priority, top/paused flags, duplicate attributes and parameters given, and is then renamed or removed as documented; a broken NZB is set aside as an error and never retried endlessly. Non-NZB files are left alone.",
 ["inputs","histories"], "all sets of incoming files and directories with arbitrary names, arrival order, repeated scans and append calls",
 "The scanner has no test.",
 ["daemon/queue/Scanner.cpp","daemon/queue/QueueCoordinator.cpp","daemon/remote/XmlRpc.cpp"],
 [("CheckIncomingNzbs, ProcessIncomingFile, AddNzb","daemon/queue/Scanner.cpp")],
 observe=["RPC listgroups/history and directory listing"])

prop("C33", "URL fetches deliver the served bytes whatever the transfer form",
 "An NZB requested by URL is fetched with the exact content the web server sent, for transfers with a stated length, gzip-compressed and ended by closing the connection, through redirects and with any segmentation of the data, and named from the response or the URL as documented. Truncated, oversized or failed responses are retried and finally reported as failed, never queued as damaged content.",
 ["inputs","fault_sequences"], "all response encodings, header orders and cases, segmentations, redirects and truncations",
 "URL fetching has no test.",
 ["daemon/connect/WebDownloader.cpp","daemon/queue/UrlCoordinator.cpp","daemon/connect/Connection.cpp"],
 [("DownloadHeaders/DownloadBody, gunzip","daemon/connect/WebDownloader.cpp")],
 observe=["queued item content; requests at the scripted web server"])

prop("C34", "Log and message streams are ordered, complete and bounded",
 "Messages returned by the log calls have unique ascending ids, keep order, respect the configured buffer size, and a client polling by last id sees every message still in the buffer exactly once. Per-item logs hold exactly the messages of that item, in order, across restarts.",
 ["histories","schedules"], "all interleavings of message production, polling with any id/count arguments, clearing and restarts",
 "Logging has no test.",
 ["daemon/util/Log.cpp","daemon/queue/DownloadInfo.cpp","daemon/remote/XmlRpc.cpp"],
 [("message buffer with IdGen","daemon/util/Log.cpp"),("log RPC","daemon/remote/XmlRpc.cpp")],
 observe=["RPC log, loadlog, writelog"])

prop("C35", "Pause, priority and order decide what is downloaded",
 "While the program or an item or file is paused, no article of it is requested (except forced-priority items under program pause), and resuming continues it. Among unpaused items articles of a higher priority item are requested before those of lower priority, equal priority in queue order, and surplus par volumes are not fetched when not needed.",
 ["histories","schedules","inputs"], "all queues, priorities, pause states and command sequences interleaved with downloading",
 "Functional tests have no ordering or pause oracle.",
 ["daemon/queue/QueueCoordinator.cpp","daemon/nntp/ArticleDownloader.cpp","daemon/queue/QueueEditor.cpp"],
 [("GetNextArticle","daemon/queue/QueueCoordinator.cpp")],
 observe=["request log of the scripted news server"])

prop("C36", "Finished and deleted items leave no leftovers and take nothing else along",
 "After items complete, fail, or are deleted in any way, the temporary, queue and intermediate directories hold no files of them beyond documented ones, and files of other items and foreign files in the destination are untouched. Deleting with or without files removes or keeps downloaded files as documented.",
 ["histories","configurations"], "all sequences of add, download, delete (with all delete forms), cleanup options and restarts",
 "Tests never look at leftovers.",
 ["daemon/queue/HistoryCoordinator.cpp","daemon/queue/QueueCoordinator.cpp","daemon/queue/DiskState.cpp","daemon/postprocess/Cleanup.cpp"],
 [("DiscardFile(s), DeleteDiskFiles, CleanupTempDir","daemon/queue/DiskState.cpp, HistoryCoordinator.cpp")],
 observe=["directory listings"])

prop("C37", "Text matching and encoding primitives obey their definitions",
 "Wildcard masks match exactly the strings their definition admits and report correct match positions; file extension lists, duplicate title and command-line splitting behave likewise. URL parsing and XML, JSON, base64, URL and quoted decoding invert the corresponding standard encodings for every text and never read or write out of bounds on any input.",
 ["inputs"], "all strings and patterns",
 "Unit tests check a few dozen fixed strings.",
 ["daemon/util/Util.cpp","daemon/util/NString.cpp"],
 [("WildMask, WebUtil, Util::SplitCommandLine, MatchFileExt, URL, Tokenizer","daemon/util/Util.cpp")],
 observe=["function results against reference implementations"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
