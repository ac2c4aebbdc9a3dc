#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Buffer edits change exactly the addressed text",
  "Inserting characters at a position, removing a range, truncating, appending the remainder of a longer buffer, or copying another buffer leaves exactly the text that operation describes: the addressed characters change, every other character keeps its value and order. A removal reports exactly how many characters it took out. This holds for every text (any Unicode, empty included) and every position or range inside it.",
  ["inputs"], "every buffer text, every valid position/range, every inserted text",
  "Tests use ASCII strings of length <= 18 at a handful of positions; the claim is for all texts and all positions.",
  ["src/buffer.rs"], [("insert/remove/truncate/copy_buffer/insert_from_buffer", "src/buffer.rs"), ("insert_raw/remove_raw", "src/buffer.rs")],
  ["text of the buffer after the call", "return value of remove"])
p("C02", "Undo, redo and revert restore the text exactly",
  "One undo takes back exactly the most recent change - one edit, or one whole undo group however deeply nested, empty groups being skipped - and leaves exactly the text from before it; one redo brings exactly that change back. Revert takes back everything recorded since the recording started, and any new edit discards what could have been redone. Undo, redo and revert report whether there was anything recorded to work on.",
  ["histories", "inputs"], "every sequence of edits, group starts/ends, undos, redos and reverts on a buffer",
  "Ten fixed sequences of at most six steps are tested; nesting, empty groups, interleaved undo/redo/edit sequences are unbounded.",
  ["src/buffer.rs"], [("undo/redo/revert", "src/buffer.rs"), ("action log", "src/buffer.rs")],
  ["text of the buffer after each undo/redo/revert", "their return values"],
  [("actions / undone_actions", "log of recorded changes and of undone changes", "src/buffer.rs")])
p("C03", "Buffer queries report exactly the text",
  "Conversions between buffers and strings, lengths in characters and bytes, the character before/after a position, ranges, line splitting, per-line widths, printed bytes and the last space-separated argument are exactly those of the buffer's text. A buffer is a continuation of another exactly when the other is non-empty, of different length and a prefix of it; it contains another exactly when the other is non-empty and occurs in it contiguously. Equality of buffers depends on their text only.",
  ["inputs"], "every pair of texts and every position/range",
  "Only conversions of short ASCII texts are exercised indirectly; prefix/containment/line queries have a few or no tests.",
  ["src/buffer.rs"], [("chars/range/lines/width/print/print_rest/as_bytes/last_arg/starts_with/contains", "src/buffer.rs")],
  ["return values"])
p("C04", "In-memory history: order, bound and duplicate suppression",
  "Adding a line to the history makes it the newest entry, keeps all other entries unchanged and in order, and drops entries only from the oldest end and only as many as needed to respect the configured maximum. When duplicate suppression is on, a line equal to the newest entry leaves the history unchanged; when it is off the line is always added. Removing duplicates of a line removes exactly the entries equal to that line; clearing removes everything.",
  ["histories", "inputs", "configurations"], "every sequence of pushed lines, every limit, both settings",
  "Tests push at most 25 single-letter lines with two limits.",
  ["src/history.rs"], [("push/remove_duplicates/clear_history", "src/history.rs")],
  ["history entries (iteration, indexing, length) after each call"],
  [("buffers", "entries, oldest first", "src/history.rs")])
p("C05", "History searches are exact and complete",
  "Searching for the newest entry that continues a text, looking back from a given position, returns the highest-numbered such entry below that position, or nothing exactly when there is none. Listing the entries containing a text returns all of them, in order and no others; the list used for browsing with a typed text contains exactly the entries that contain the text and differ from it, those that merely contain it first, those that start with it last, each part in history order.",
  ["inputs", "histories"], "every history, every search text, every starting position",
  "A few fixed histories; ordering, completeness and absence need all histories and all texts.",
  ["src/history.rs"], [("get_newest_match/get_history_subset/search_index", "src/history.rs")], ["returned indices"])
p("C06", "Loading a history file yields its lines, bounded and de-duplicated",
  "Loading a history file gives one entry per line in file order, skipping lines that start with '#', replacing or appending to the current entries as asked; when there are more entries than the file limit exactly the newest ones are kept. When loading duplicates is disallowed, of equal lines only the latest is kept and the order of the kept ones is unchanged. When a line is added to a history shared through its file, the file is re-read first if its size changed since it was last read or written and is left alone if it did not; loading an empty file empties the history when it replaces. Loading from a missing file reports an error and changes nothing.",
  ["inputs", "configurations", "histories"], "every file content, limit and option setting",
  "One test loads a four-line file.",
  ["src/history.rs"], [("load_history/load_history_file/set_file_name_and_load_history", "src/history.rs")],
  ["entries after loading", "returned size or error"])
p("C07", "Saved history loses nothing and reads back the same",
  "Saving writes the newest entries up to the file limit, one per line in order; with incremental append every accepted entry is added to the end of the file as it is entered. Periodic compaction of the (UTF-8) file drops only lines that start with '#', duplicates of kept lines and lines beyond the configured limits, never the newly entered line, and keeps the order. Single-line entries not starting with '#' read back from the file exactly as they were saved.",
  ["histories", "configurations", "inputs"], "every sequence of pushes under every setting of incremental append, sharing, duplicates and limits",
  "One test saves 25 letters with limit 5; the compaction paths (every 30th write) are never executed by a test.",
  ["src/history.rs"], [("push (append and compaction)", "src/history.rs"), ("deduplicate_history_file/overwrite_history/commit_to_file", "src/history.rs")],
  ["content of the history file", "entries read back from it"])
p("C08", "The cursor stays in the text and no input causes a panic",
  "Whatever keys or editing calls are made, in whatever order, in either key mode, with any history, completions and terminal width, the editor does not panic. After every handled key the cursor lies within the current text, and in Vi normal mode it lies on a character (or at 0 when the text is empty).",
  ["histories", "inputs", "configurations"], "every sequence of keys and public editing calls from every reachable state",
  "Tests check the cursor after fixed key sequences in short ASCII texts only.",
  ["src/editor.rs", "src/keymap/vi.rs", "src/keymap/emacs.rs", "src/buffer.rs"], [("cursor clamping on display", "src/editor.rs"), ("bounds of each editing operation", "src/editor.rs")],
  ["cursor position and text length after each key", "panics"],
  [("cursor", "index between characters", "src/editor.rs"), ("no_eol", "Vi normal mode flag", "src/editor.rs")])
p("C09", "Editor operations edit exactly at the cursor",
  "Each editing operation changes the current line exactly as described relative to the cursor: insertion puts the characters at the cursor and moves it behind them, deletions remove exactly the character before/after, everything before/after, or everything up to a position (inclusive or exclusive, in either direction), and movements change only the cursor, clamped to the text. No editing operation touches any other line, and undo, redo and revert on the editor act on the current line only and move the cursor to its end when they changed something.",
  ["inputs", "histories"], "every text, cursor position, argument, on the new line and on history lines",
  "About ten fixed cases are tested.",
  ["src/editor.rs"], [("insert_*/delete_*/move_cursor_* on the current buffer", "src/editor.rs")],
  ["current text and cursor after each call"])
p("C10", "Browsing and editing history never alters stored entries",
  "Moving through history shows the stored entries in order (all of them when nothing is typed, the matching ones when a text is typed), stops at the oldest, and moving past the newest returns to the line being typed with its text intact. As long as the history is not shared with another program that changes it meanwhile, editing a shown entry, searching, completing or accepting it never changes the stored history entries. Moving to the start of history shows the oldest entry and moving to the end returns to the line being typed.",
  ["histories", "inputs"], "every sequence of browsing and editing steps over every history",
  "Tests cover a few up/down sequences over three fixed entries; stored entries are not compared afterwards.",
  ["src/editor.rs", "src/history.rs"], [("move_up/move_down/move_to_start_of_history/move_to_end_of_history", "src/editor.rs"), ("copy-on-edit history buffer", "src/editor.rs")],
  ["current text after each step", "history entries afterwards"],
  [("cur_history_loc", "which entry is shown", "src/editor.rs"), ("hist_buf", "edited copy of the shown entry", "src/editor.rs")])
p("C11", "Incremental search visits exactly the matching entries",
  "While searching, the offered entry always is a history entry containing the typed search text, and is absent exactly when no entry contains it or nothing has been typed. A search begun while the new line is shown starts at the newest match when it goes backwards and at the oldest when it goes forwards (begun while a history entry is shown, at the match nearest to that entry); repeating steps through all matches one by one and wraps around, and typing more keeps the search at the nearest remaining match. Accepting puts exactly the offered entry on the line with the cursor at its end and ends the search.",
  ["histories", "inputs"], "every history, search text and sequence of search steps",
  "A few fixed searches over three entries are tested.",
  ["src/editor.rs", "src/history.rs"], [("search/refresh_search/accept_autosuggestion", "src/editor.rs"), ("search_index", "src/history.rs")],
  ["offered entry after each step", "text and cursor after accepting"],
  [("history_subset_index / history_subset_loc", "matches and current match", "src/editor.rs")])
p("C12", "Completion replaces only the word before the cursor",
  "Completing replaces only the word that ends at or contains the cursor, up to the cursor: with one candidate by that candidate, with several by their longest common prefix when it extends the word, otherwise nothing changes and a list is offered whose entries are then inserted in turn, cyclically, in sorted order without duplicates. All text outside the replaced word is kept and the cursor ends behind the inserted text. Without candidates nothing changes. A completer made from a list of words offers those that start with the typed word, in their order.",
  ["inputs", "histories"], "every text, cursor, candidate list and number of repetitions",
  "No test exercises completion with candidates.",
  ["src/editor.rs", "src/util.rs", "src/complete.rs"], [("complete/delete_word_before_cursor", "src/editor.rs"), ("find_longest_common_prefix", "src/util.rs")],
  ["text and cursor after each completion key", "candidates"],
  [("show_completions_hint", "offered candidates and index", "src/editor.rs")])
p("C13", "Enter, Ctrl-C and Ctrl-D end the line as specified",
  "Enter finishes the line and returns exactly the text then shown, unless the character before the cursor is a backslash, in which case a line break is inserted at the cursor and editing continues, or a completion list is showing, which it only dismisses. Ctrl-C always ends with an interrupted error and Ctrl-D ends with an end-of-file error exactly when the line is empty. No other key ends the line; end of input returns the text so far.",
  ["inputs", "histories"], "every editor state and key",
  "Three tests (Ctrl-C, Ctrl-D on empty and non-empty) exist; nothing covers Enter in all states.",
  ["src/keymap/mod.rs", "src/editor.rs", "src/context.rs"], [("handle_key", "src/keymap/mod.rs"), ("handle_newline", "src/editor.rs"), ("handle_keys", "src/context.rs")],
  ["result of handling a key", "returned line"])
p("C14", "Autosuggestions only ever extend what was typed",
  "While typing a new line, a suggestion is shown exactly when some history entry starts with the non-empty typed text and is longer, and it is the newest such entry. Accepting it appends exactly the missing rest, leaving the typed part unchanged and the cursor at the end. Accepting when nothing is suggested leaves the text unchanged.",
  ["inputs", "histories"], "every history and typed text",
  "Suggestions are tested on two fixed inputs.",
  ["src/editor.rs", "src/history.rs", "src/buffer.rs"], [("current_autosuggestion/accept_autosuggestion", "src/editor.rs"), ("get_newest_match", "src/history.rs"), ("insert_from_buffer", "src/buffer.rs")],
  ["suggestion shown", "text after accepting"])
p("C15", "Word boundaries and cursor classification are exact",
  "Splitting a line into words yields, in order, the maximal runs that start at a non-space, where a space preceded by a backslash does not end a word (before a word, spaces and backslashes are skipped); the words are disjoint, ordered and non-empty. The cursor is classified, for any list of ordered words, as inside a word, on its left or right edge, or in space with the nearest words on both sides, exactly as its position says.",
  ["inputs"], "every text; every ordered word list and cursor position",
  "Nine fixed cursor cases; the splitter is only tested through them.",
  ["src/context.rs", "src/editor.rs"], [("get_buffer_words", "src/context.rs"), ("CursorPosition::get", "src/editor.rs")], ["returned word ranges", "returned classification"])
p("C16", "Vi modes: Esc returns to normal, insert sessions undo as one",
  "From any Vi state Esc (once, or twice from within a pending change command) leads to normal mode, and keys that are not valid in a pending command cancel it without changing the text. Whenever no command is pending, the mode shown in the prompt agrees with the mode in which keys are interpreted. Everything typed between entering insert mode and leaving it, without moving the cursor in between, is taken back by a single undo.",
  ["histories", "inputs"], "every sequence of keys",
  "Fixed key sequences only; mode agreement and abort paths after arbitrary prefixes are not tested.",
  ["src/keymap/vi.rs", "src/editor.rs"], [("mode stack", "src/keymap/vi.rs"), ("undo groups around insert mode", "src/keymap/vi.rs")],
  ["mode, text, shown mode after each key", "text after undo"],
  [("mode_stack", "pending modes", "src/keymap/vi.rs")])
p("C17", "Vi motions land exactly where defined and change nothing",
  "In normal mode h, l, 0, ^, $, w, W, b, B, e, E, ge, gE, f, F, t, T, ';' and ',' with any count move the cursor exactly to the place defined by their Vi meaning on the current line (word: a maximal run of alphanumerics/underscore or of other non-blanks; WORD: a maximal run of non-blanks), clamped to the line. A find motion without enough matching characters does not move. No motion changes the text.",
  ["inputs"], "every text, cursor position, motion, count and target character",
  "About forty fixed texts are tested; Unicode, punctuation runs, counts beyond the text need all inputs.",
  ["src/keymap/vi.rs"], [("vi_move_word/vi_move_word_end/find_char/find_char_rev", "src/keymap/vi.rs")], ["cursor and text after the motion"])
p("C18", "Vi operators delete exactly what the motion spans",
  "d or c with a motion deletes exactly the characters between the cursor and the motion's target (including the target for f, t, ge and gE), c then being in insert mode; dd/cc, D, C, x, s, r and ~ change exactly the line, the rest of the line, or the counted characters at the cursor. Counts before and after an operator multiply. Text outside the affected span is never changed, and an operator with a find that has no target deletes nothing. (With e and E this editor's span ends before the target character.)",
  ["inputs", "histories"], "every text, cursor, operator, motion and count",
  "Around sixty fixed cases; counts, Unicode case changes, failing finds and empty lines are not covered.",
  ["src/keymap/vi.rs", "src/editor.rs"], [("pop_mode_after_movement/handle_key_delete_or_change/handle_key_replace", "src/keymap/vi.rs"), ("delete_until/delete_until_inclusive", "src/editor.rs")],
  ["text, cursor and mode after the command"])
p("C19", "Vi repeat does the last change again",
  "The dot key performs the last change (insertion session, change, deletion, replacement or case change) again at the current cursor, with its original count or the new one given, with the same effect on the text as typing that change's keys again. A command that is given up, an operator whose find has no target, a motion and an undo are no changes and leave the last change as it was. It ends in normal mode and leaves the last change repeatable.",
  ["histories", "inputs"], "every last change, text, cursor and count",
  "About twenty fixed command/repeat pairs are tested.",
  ["src/keymap/vi.rs"], [("repeat and recorded last command", "src/keymap/vi.rs")], ["text, cursor and mode after the dot key"],
  [("last_command/last_insert/last_count", "recorded change", "src/keymap/vi.rs")])
p("C20", "Emacs keys do exactly their documented edit",
  "Every Emacs key performs exactly its operation on the current line: characters insert, Ctrl-A/E/B/F and arrows move, Ctrl-D/K/U/W, Backspace and Alt-Backspace delete their span, Alt-F/Alt-B move to the end of the current or next / start of the current or previous word, Ctrl-X undoes and Alt-R reverts. Alt-. inserts the last argument of the newest (or shown) history entry, and each immediate repetition, the line being unchanged in between, replaces it by the last argument of the next older entry, stopping at the oldest. Unbound keys change nothing.",
  ["inputs", "histories"], "every key in every state",
  "A dozen fixed cases; word moves over all texts and repeated last-argument fetches are not covered.",
  ["src/keymap/emacs.rs", "src/editor.rs"], [("key dispatch", "src/keymap/emacs.rs"), ("handle_last_arg_fetch/emacs_move_word", "src/keymap/emacs.rs")],
  ["text and cursor after the key"])
p("C21", "Longest common prefix is the longest common prefix",
  "For a non-empty list the result is the longest sequence that is a prefix of every element, and nothing is returned exactly when that is empty although more than one element was given, or the list itself is empty.",
  ["inputs"], "every list of sequences over every element type",
  "Not tested beyond a few completions.",
  ["src/util.rs"], [("find_longest_common_prefix", "src/util.rs")], ["return value"], hook=None)
p("C22", "Prompt width counts the visible characters of its last line",
  "The width used for the prompt is the display width of the text behind its last line break after removing terminal escape sequences: CSI sequences up to their final letter, OSC sequences up to BEL, and other two-character escapes; all other characters are kept in order.",
  ["inputs"], "every prompt text",
  "Not tested with OSC, nested or unterminated sequences.",
  ["src/util.rs"], [("remove_codes/handle_prompt/last_prompt_line_width", "src/util.rs")], ["cursor column the terminal is told to go to", "stripped text"])
p("C23", "Terminal errors surface as errors",
  "When reading a key, writing or flushing fails, the operation under way returns that failure to the caller instead of panicking or pretending success; a read failure ends the line with that error.",
  ["fault_sequences", "histories"], "every operation and every point at which the terminal fails",
  "No test lets the terminal fail.",
  ["src/editor.rs", "src/keymap/mod.rs", "src/keymap/vi.rs", "src/context.rs"], [("error propagation with ?", "src/editor.rs")], ["result of the operation"])
p("C24", "The terminal shows prompt, line and cursor",
  "After every redraw in which no search runs and no completions are listed, a terminal that is sent the output shows, from the row the prompt starts in, the prompt (one line, possibly coloured) and behind it the line, or the offered suggestion in its place: wrapped at the right edge, the lines behind a line break each indented by the prompt's width, and nothing else in or below these rows. Its cursor stands at the cursor's place in the line, and in the first column of the next row when that place is behind the last column. This holds for every terminal width, whatever the redraw before left, for every text of characters that take one column each. Clearing the screen draws prompt and line at its top with nothing else shown, and a line handed over with Enter is left on the screen without its suggestion. Colours only add colour.",
  ["histories", "inputs", "configurations"], "every prompt, text, cursor, suggestion, terminal width and previous redraw",
  "Nothing checks what is drawn.",
  ["src/editor.rs", "src/util.rs"], [("display_impl/calc_width/display/clear", "src/editor.rs")], ["screen and cursor of a terminal after each redraw"])
p("C25", "File name completion offers exactly the matching entries",
  "Completing a file name offers exactly the directory entries whose name starts with the typed last component (compared in lower case when so configured; entries that cannot be read left out), in the order they are listed in, each as the typed directory, the entry's name and, for a directory, a trailing slash, with every space escaped as a backslash and a space. The typed text is a word whose escaped spaces stand for spaces, or a word in single or double quotes, the closing one optional, without them. Text that is empty, ends in a slash or has `.` or `..` as its last component names a directory as a whole and all its entries match. The directory is seen from the working directory when there is one, else from the current one. Redundant slashes and `.` components at the end of the typed directory may be dropped. A directory that cannot be read gives no candidates.",
  ["inputs", "configurations"], "every directory content and typed text",
  "No test exercises file name completion.",
  ["src/complete.rs"], [("FilenameCompleter", "src/complete.rs")], ["candidates"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
