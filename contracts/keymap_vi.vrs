//@ uses
use vstd::prelude::*;
use crate::vx::*;
use crate::vxcmp as cmp;
use crate::vxio as io;
use crate::vxio::{ErrorKind, io_rel};
use crate::vxkey::Key;
use crate::buffer::*;
use crate::history::*;
use crate::context::*;
use crate::editor::*;
use crate::keymap::*;
//@ prelude
broadcast use {crate::vx_ax::ax_vec_char_len};
// ---------------------------------------------------------------- characters
pub open spec fn c_space(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub uninterp spec fn c_alnum(c: char) -> bool;
pub uninterp spec fn c_lower(c: char) -> bool;
pub uninterp spec fn c_upper(c: char) -> bool;
pub uninterp spec fn to_upper(c: char) -> Seq<char>;
pub uninterp spec fn to_lower(c: char) -> Seq<char>;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == c_alnum(c);
pub assume_specification [char::is_lowercase] (c: char) -> (r: bool) ensures r == c_lower(c);
pub assume_specification [char::is_uppercase] (c: char) -> (r: bool) ensures r == c_upper(c);
/// trusted: no white space character is alphanumeric
#[verifier::external_body]
pub proof fn ax_space(c: char) ensures c_space(c) ==> !c_alnum(c) && c != '_' {}
#[verifier::external_body]
pub fn vx_to_uppercase(c: char) -> (r: VxIt<char>) ensures r@ == to_upper(c) { VxIt { v: c.to_uppercase().collect() } }
#[verifier::external_body]
pub fn vx_to_lowercase(c: char) -> (r: VxIt<char>) ensures r@ == to_lower(c) { VxIt { v: c.to_lowercase().collect() } }
pub open spec fn is_kw(c: char) -> bool { c == '_' || c_alnum(c) }
/// 0: blank; in keyword mode 1: word, 2: other; in WORD mode 1: not blank
pub open spec fn kind(ws: bool, c: char) -> int { if c_space(c) { 0 } else if ws || is_kw(c) { 1 } else { 2 } }

// ---------------------------------------------------------------- word motions (C17)
pub proof fn lemma_nth_from(t: Seq<char>, ch: char, i: int, k: int)
    requires 0 <= i ensures match nth_from(t, ch, i, k) { Some(j) => i <= j < t.len() && t[j] == ch, None => true } decreases t.len() - i
{ if i < t.len() { lemma_nth_from(t, ch, i + 1, k); lemma_nth_from(t, ch, i + 1, k - 1); } }
pub proof fn lemma_nth_before(t: Seq<char>, ch: char, i: int, k: int)
    requires i <= t.len() ensures match nth_before(t, ch, i, k) { Some(j) => 0 <= j < i && t[j] == ch, None => true } decreases i
{ if i > 0 { lemma_nth_before(t, ch, i - 1, k); lemma_nth_before(t, ch, i - 1, k - 1); } }
/// position i is where a word motion to the right (left) stops: the first character of a run of one
/// non-blank kind in the direction of travel, or with `end` the last one
pub open spec fn stops(t: Seq<char>, ws: bool, right: bool, end: bool, i: int) -> bool {
    let j = if right == end { i + 1 } else { i - 1 };
    kind(ws, t[i]) != 0 && 0 <= j < t.len() && kind(ws, t[j]) != kind(ws, t[i])
}
/// the first such position beyond c, else the end (start) of the text
pub open spec fn scan(t: Seq<char>, ws: bool, right: bool, end: bool, c: int) -> int
    decreases (if right { t.len() - c } else { c })
{
    if right { if c + 1 >= t.len() { t.len() as int } else if stops(t, ws, right, end, c + 1) { c + 1 } else { scan(t, ws, right, end, c + 1) } }
    else { if c <= 1 { 0 } else if stops(t, ws, right, end, c - 1) { c - 1 } else { scan(t, ws, right, end, c - 1) } }
}
pub open spec fn word_step(t: Seq<char>, ws: bool, right: bool, end: bool, c: int) -> int { if !end && c >= t.len() { c } else { scan(t, ws, right, end, c) } }
/// n word motions from c
pub open spec fn word_steps(t: Seq<char>, ws: bool, right: bool, end: bool, c: int, n: int) -> int
    decreases n
{ if n <= 0 { c } else { word_steps(t, ws, right, end, word_step(t, ws, right, end, c), n - 1) } }
pub proof fn lemma_word_stuck(t: Seq<char>, ws: bool, right: bool, end: bool, c: int, n: int)
    requires word_step(t, ws, right, end, c) == c ensures word_steps(t, ws, right, end, c, n) == c decreases n
{ if n > 0 { lemma_word_stuck(t, ws, right, end, c, n - 1); } }
pub proof fn lemma_scan_range(t: Seq<char>, ws: bool, right: bool, end: bool, c: int)
    requires 0 <= c <= t.len() ensures 0 <= scan(t, ws, right, end, c) <= t.len(), right ==> c <= scan(t, ws, right, end, c), !right ==> scan(t, ws, right, end, c) <= c
    decreases (if right { t.len() - c } else { c })
{
    if right { if c + 1 < t.len() { lemma_scan_range(t, ws, right, end, c + 1); } } else { if c > 1 { lemma_scan_range(t, ws, right, end, c - 1); } }
}
pub proof fn lemma_steps_range(t: Seq<char>, ws: bool, right: bool, end: bool, c: int, n: int)
    requires 0 <= c <= t.len() ensures 0 <= word_steps(t, ws, right, end, c, n) <= t.len(), right ==> c <= word_steps(t, ws, right, end, c, n), !right ==> word_steps(t, ws, right, end, c, n) <= c
    decreases n
{ if n > 0 { lemma_scan_range(t, ws, right, end, c); lemma_steps_range(t, ws, right, end, word_step(t, ws, right, end, c), n - 1); } }

pub open spec fn skind(s: State_vi_move_word, ws: bool) -> int { match s { State_vi_move_word::Whitespace => 0, State_vi_move_word::Keyword => 1, State_vi_move_word::NonKeyword => if ws { 1 } else { 2 } } }
pub open spec fn ekind(s: State_vi_move_word_end) -> int { match s { State_vi_move_word_end::Whitespace => 0, State_vi_move_word_end::EndOnWord => 1, State_vi_move_word_end::EndOnWhitespace => 1, State_vi_move_word_end::EndOnOther => 2 } }
pub open spec fn ekind_ok(s: State_vi_move_word_end, ws: bool) -> bool { match s { State_vi_move_word_end::Whitespace => true, State_vi_move_word_end::EndOnWhitespace => ws, _ => !ws } }
// ---------------------------------------------------------------- finding a character (C17)
/// the k-th place of ch at or after i
pub open spec fn nth_from(t: Seq<char>, ch: char, i: int, k: int) -> Option<int>
    decreases t.len() - i
{ if i >= t.len() { None } else if t[i] == ch { if k <= 1 { Some(i) } else { nth_from(t, ch, i + 1, k - 1) } } else { nth_from(t, ch, i + 1, k) } }
/// the k-th place of ch before i, counting backwards
pub open spec fn nth_before(t: Seq<char>, ch: char, i: int, k: int) -> Option<int>
    decreases i
{ if i <= 0 { None } else if t[i - 1] == ch { if k <= 1 { Some(i - 1) } else { nth_before(t, ch, i - 1, k - 1) } } else { nth_before(t, ch, i - 1, k) } }
pub open spec fn is_pair<'a>(ch: char) -> spec_fn((usize, &'a char)) -> bool { |p: (usize, &'a char)| *p.1 == ch }
pub open spec fn epairs<'a>(t: Seq<char>) -> Seq<(usize, &'a char)> { seq_enumerate(seq_refs(t)) }
pub open spec fn pairs_nth(s: Seq<(usize, &char)>, k: int) -> Option<int> { if 0 < k <= s.len() { Some(s[k - 1].0 as int) } else { None } }
pub proof fn lemma_filter_first<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    requires s.len() > 0
    ensures s.filter(p) == (if p(s[0]) { seq![s[0]] + s.subrange(1, s.len() as int).filter(p) } else { s.subrange(1, s.len() as int).filter(p) })
    decreases s.len()
{
    reveal(Seq::filter);
    let r = s.subrange(1, s.len() as int);
    if s.len() == 1 {
        assert(s.drop_last() =~= Seq::empty());
        assert(s.drop_last().filter(p) =~= Seq::empty());
        assert(r.filter(p) =~= Seq::empty());
        assert(s.filter(p) =~= (if p(s[0]) { seq![s[0]] + r.filter(p) } else { r.filter(p) }));
    } else {
        lemma_filter_first(s.drop_last(), p);
        assert(s.drop_last().subrange(1, s.len() - 1) =~= r.drop_last());
        assert(r.last() == s.last());
        assert(s.filter(p) =~= (if p(s[0]) { seq![s[0]] + r.filter(p) } else { r.filter(p) }));
    }
}
pub proof fn lemma_find(t: Seq<char>, ch: char, i: int, k: int)
    requires 0 <= i <= t.len() <= usize::MAX, k > 0
    ensures pairs_nth(epairs(t).subrange(i, t.len() as int).filter(is_pair(ch)), k) == nth_from(t, ch, i, k)
    decreases t.len() - i
{
    let s = epairs(t).subrange(i, t.len() as int);
    reveal(Seq::filter);
    if i < t.len() {
        lemma_filter_first(s, is_pair(ch));
        assert(s.subrange(1, s.len() as int) =~= epairs(t).subrange(i + 1, t.len() as int));
        lemma_find(t, ch, i + 1, k);
        if k > 1 { lemma_find(t, ch, i + 1, k - 1); }
        assert(s[0] == epairs(t)[i]);
    }
}
pub proof fn lemma_find_rev(t: Seq<char>, ch: char, i: int, k: int)
    requires 0 <= i <= t.len() <= usize::MAX, k > 0
    ensures pairs_nth(seq_reverse(epairs(t)).subrange(t.len() - i, t.len() as int).filter(is_pair(ch)), k) == nth_before(t, ch, i, k)
    decreases i
{
    let e = seq_reverse(epairs(t));
    let s = e.subrange(t.len() - i, t.len() as int);
    reveal(Seq::filter);
    if i > 0 {
        lemma_filter_first(s, is_pair(ch));
        assert(s.subrange(1, s.len() as int) =~= e.subrange(t.len() - (i - 1), t.len() as int));
        lemma_find_rev(t, ch, i - 1, k);
        if k > 1 { lemma_find_rev(t, ch, i - 1, k - 1); }
        assert(s[0] == epairs(t)[i - 1]);
    }
}

// ---------------------------------------------------------------- modes (C16)
pub open spec fn top(s: Seq<Mode>) -> Mode { if s.len() == 0 { Mode::Normal } else { s.last() } }
/// text is being entered, or will be when the pending command is complete
pub open spec fn ins(s: Seq<Mode>) -> bool { s.len() > 0 && s[0] == Mode::Insert }
pub open spec fn base(s: Seq<Mode>) -> int { if ins(s) { 1 } else { 0 } }
pub open spec fn proper(m: CharMovement) -> bool { m != CharMovement::Repeat && m != CharMovement::ReverseRepeat }
pub open spec fn is_sub(m: Mode) -> bool { match m { Mode::MoveToChar(x) => proper(x), Mode::G => true, _ => false } }
/// the mode stacks that occur: normal, insert, or one with a command pending
pub open spec fn shape(s: Seq<Mode>) -> bool {
    let k = base(s);
    s.len() == k || (s.len() == k + 1 && (s[k] is Delete || (k == 0 && (s[0] == Mode::Replace || is_sub(s[0])))))
        || (s.len() == k + 2 && s[k] is Delete && is_sub(s[k + 1]))
}
/// where the pending operator started
pub open spec fn del_at(s: Seq<Mode>) -> Option<usize> { let k = base(s); if s.len() > k && s[k] is Delete { Some(s[k]->Delete_0) } else { None } }
pub open spec fn prompt_mode(m: Mode) -> Option<ViPromptMode> { match m { Mode::Insert => Some(ViPromptMode::Insert), Mode::Normal => Some(ViPromptMode::Normal), _ => None } }
pub open spec fn mov_key(k: Key) -> bool {
    match k {
        Key::Char('h') | Key::Char('l') | Key::Left | Key::Right | Key::Char('w') | Key::Char('W') | Key::Char('b') | Key::Char('B')
        | Key::Char('e') | Key::Char('E') | Key::Char('g') | Key::Backspace | Key::Char(' ') | Key::Home | Key::End | Key::Char('^') | Key::Char('$')
        | Key::Char('t') | Key::Char('f') | Key::Char('T') | Key::Char('F') | Key::Char(';') | Key::Char(',') => true,
        _ => false,
    }
}
// ---------------------------------------------------------------- what may be recorded (C19)
pub open spec fn typed(k: Key) -> bool { k is Char || k is Backspace || k is Delete }
pub open spec fn typed_from(s: Seq<Key>, i: int) -> bool { forall |j: int| i <= j < s.len() ==> typed(#[trigger] s[j]) }
pub open spec fn find_key(k: Key) -> bool { k == Key::Char('f') || k == Key::Char('F') || k == Key::Char('t') || k == Key::Char('T') }
/// the number of keys of the motion at s[i..]
pub open spec fn motion_at(s: Seq<Key>, i: int) -> int {
    if i < 0 || i >= s.len() { 0 }
    else if find_key(s[i]) { if i + 1 < s.len() && s[i + 1] is Char { 2 } else { 0 } }
    else if s[i] == Key::Char('g') { if i + 1 < s.len() && (s[i + 1] == Key::Char('e') || s[i + 1] == Key::Char('E')) { 2 } else { 0 } }
    else if mov_key(s[i]) || s[i] == Key::Char('0') { 1 } else { 0 }
}
pub open spec fn opens_plain(k: Key) -> bool { k == Key::Char('i') || k == Key::Char('a') || k == Key::Char('A') || k == Key::Char('I') }
pub open spec fn opens(k: Key) -> bool { opens_plain(k) || k == Key::Char('s') || k == Key::Char('C') }
/// a recorded change: how insert mode was entered, if it was, and the keys
pub open spec fn cmd_ok(li: Option<Key>, s: Seq<Key>) -> bool {
    match li {
        None => s.len() == 0 || (s.len() == 1 && (s[0] == Key::Char('x') || s[0] == Key::Delete || s[0] == Key::Char('D') || s[0] == Key::Char('~')))
            || (s.len() == 2 && s[0] == Key::Char('r') && s[1] is Char)
            || (s[0] == Key::Char('d') && ((s.len() == 2 && s[1] == Key::Char('d')) || (motion_at(s, 1) > 0 && s.len() == 1 + motion_at(s, 1)))),
        Some(k) => (opens(k) && typed_from(s, 0))
            || (k == Key::Char('c') && (s.len() == 0 || (s[0] == Key::Char('c') && typed_from(s, 1)) || (motion_at(s, 0) > 0 && typed_from(s, motion_at(s, 0))))),
    }
}
pub open spec fn sub_key(m: Mode) -> Key {
    match m {
        Mode::MoveToChar(CharMovement::RightUntil) => Key::Char('t'), Mode::MoveToChar(CharMovement::RightAt) => Key::Char('f'),
        Mode::MoveToChar(CharMovement::LeftUntil) => Key::Char('T'), Mode::MoveToChar(CharMovement::LeftAt) => Key::Char('F'),
        _ => Key::Char('g'),
    }
}
/// the keys of the pending command so far
pub open spec fn pend(s: Seq<Mode>) -> Seq<Key> {
    let p = if ins(s) { Seq::<Key>::empty() } else { seq![Key::Char('d')] };
    if s.len() > base(s) + 1 { p.push(sub_key(s.last())) } else { p }
}
impl Vi {
    pub open spec fn st(&self) -> Seq<Mode> { self.mode_stack.0@ }
    pub open spec fn pend_ok(&self) -> bool {
        del_at(self.st()) is Some ==> self.current_insert == (if ins(self.st()) { Some(Key::Char('c')) } else { None }) && self.current_command@ == pend(self.st())
    }
    pub open spec fn find_ok(&self) -> bool { match self.last_char_movement { Some(m) => proper(m.1), None => true } }
    /// the invariant of the state
    pub open spec fn good(&self) -> bool {
        &&& shape(self.st()) && self.find_ok() && self.pend_ok() && cmd_ok(self.last_insert, self.last_command@)
        &&& self.st().len() == 1 && ins(self.st()) ==> self.last_insert is Some
            && (self.last_insert == Some(Key::Char('c')) ==> self.last_command@.len() > 0)
            && (self.count > 0 ==> !self.movement_reset && opens_plain(self.last_insert->0))
    }
    /// what handle_key_normal is called with: normal mode, or a motion or digit after an operator
    pub open spec fn npre(&self, key: Key) -> bool {
        let s = self.st();
        &&& self.find_ok() && cmd_ok(self.last_insert, self.last_command@)
        &&& s.len() == 0 || (shape(s) && top(s) is Delete && self.current_insert == (if ins(s) { Some(Key::Char('c')) } else { None })
            && (((mov_key(key) || (key == Key::Char('0') && self.count == 0)) && self.current_command@ == pend(s).push(key))
                || (is_digit(key) && !(key == Key::Char('0') && self.count == 0) && self.current_command@ == pend(s))))
    }
    pub open spec fn same_record(&self, o: &Self) -> bool { self.last_command@ == o.last_command@ && self.last_insert == o.last_insert && self.last_count == o.last_count }
    pub open spec fn same_pending(&self, o: &Self) -> bool { self.current_command@ == o.current_command@ && self.current_insert == o.current_insert && self.secondary_count == o.secondary_count }
}
pub fn vx_last_or(v: &Vec<Mode>, d: Mode) -> (r: Mode) ensures r == (if v@.len() == 0 { d } else { v@.last() }) { if v.len() == 0 { d } else { v[v.len() - 1] } }
pub fn vx_pop_or(v: &mut Vec<Mode>, d: Mode) -> (r: Mode)
    ensures r == (if old(v)@.len() == 0 { d } else { old(v)@.last() }), final(v)@ == (if old(v)@.len() == 0 { old(v)@ } else { old(v)@.drop_last() })
{ match v.pop() { Some(m) => m, None => d } }
pub fn vx_has(v: &Vec<Mode>, m: Mode) -> (r: bool) ensures r == v@.contains(m)
{
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), forall |k: int| 0 <= k < i ==> v@[k] != m decreases v@.len() - i
    { if v[i] == m { return true; } i += 1; }
    false
}
pub fn vx_swap(a: &mut Vec<Key>, b: &mut Vec<Key>) ensures final(a)@ == old(b)@, final(b)@ == old(a)@ { vx_swap0(a, b) }
/// trusted: std::mem::swap and replace
#[verifier::external_body]
pub fn vx_swap0(a: &mut Vec<Key>, b: &mut Vec<Key>) ensures *final(a) == *old(b), *final(b) == *old(a) { std::mem::swap(a, b) }
#[verifier::external_body]
pub fn vx_replace(a: &mut Vec<Key>, b: Vec<Key>) -> (r: Vec<Key>) ensures r == *old(a), *final(a) == b { std::mem::replace(a, b) }
pub open spec fn mc(n: u32) -> int { if n == 0 { 1 } else { n as int } }
// ---------------------------------------------------------------- effects on the editor
pub open spec fn with_prompt<C: EditorContext>(a: Editor<C>, p: Prompt) -> Editor<C> { Editor { prompt: p, ..a } }
/// the prompt shows mode m (if it shows a mode at all)
pub open spec fn shows<C: EditorContext>(a: Editor<C>, b: Editor<C>, m: ViPromptMode) -> bool { shown(b.prompt) == (match shown(a.prompt) { Some(x) => Some(m), None => None }) }
pub open spec fn mode_set<C: EditorContext>(a: Editor<C>, b: Editor<C>, m: Option<ViPromptMode>) -> bool {
    match m {
        None => b == a,
        Some(x) => b.prompt.prompt == a.prompt.prompt && shows(a, b, x) && b.redisplayed(&with_prompt(a, b.prompt)),
    }
}
/// what no edit and no motion changes
pub open spec fn kept<C: EditorContext>(b: Editor<C>, a: Editor<C>) -> bool {
    &&& b.h() == a.h() && b.context.wds() == a.context.wds() && b.context.kb() == a.context.kb() && b.prompt.prompt == a.prompt.prompt
    &&& b.history_fresh == a.history_fresh && b.cur_history_loc == a.cur_history_loc && b.show_autosuggestions == a.show_autosuggestions
    &&& a.cur_history_loc is Some ==> b.new_buf == a.new_buf
    &&& a.cur_history_loc is None ==> b.hist_buf == a.hist_buf
}
pub open spec fn rests<C: EditorContext>(b: Editor<C>, c: int) -> bool { b.wf() && b.cursor == clampc(b.no_eol, c, b.text().len() as int) }
pub open spec fn same_line<C: EditorContext>(b: Editor<C>, a: Editor<C>) -> bool { kept(b, a) && b.text() == a.text() && b.eul() == a.eul() && b.erl() == a.erl() }
pub open spec fn line_is<C: EditorContext>(b: Editor<C>, a: Editor<C>, t: Seq<char>, l: Seq<AV>) -> bool { kept(b, a) && b.text() == t && b.eul() == l }
/// the text after an operator: from p to q, both in the text or at its end, with the character at the far end if incl
pub open spec fn cut_lo(p: int, q: int) -> int { imin(p, q) }
pub open spec fn cut_hi(p: int, q: int, incl: bool, n: int) -> int { imin(imax(p, q) + (if incl { 1int } else { 0 }), n) }
pub open spec fn cut_text(t: Seq<char>, p: int, q: int, incl: bool) -> Seq<char> { splice_out(t, cut_lo(p, q), cut_hi(p, q, incl, t.len() as int)) }
pub open spec fn cut_log(t: Seq<char>, l: Seq<AV>, p: int, q: int, incl: bool) -> Seq<AV> { l.push(rem_of(t, cut_lo(p, q), cut_hi(p, q, incl, t.len() as int))) }
/// a motion went to p: what it completes (C18).  v0, a: before the motion; v1, b: after it
pub open spec fn completes<C: EditorContext>(v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>, p: int, incl: bool) -> bool {
    match del_at(v0.st()) {
        Some(s) => line_is(b, a, cut_text(a.text(), p, s as int, incl), cut_log(a.text(), a.eul(), p, s as int, incl)) && rests(b, imin(p, s as int)),
        None => same_line(b, a) && rests(b, p),
    }
}
/// how it leaves the state of the key map; cc: the keys of the operator's motion, n: the count
pub open spec fn completes_vi(v0: Vi, cc: Seq<Key>, n: u32, v1: Vi) -> bool {
    let k = ins(v0.st());
    &&& v1.st() =~= (if k { seq![Mode::Insert] } else { Seq::<Mode>::empty() }) && v1.movement_reset == !k
    &&& v1.current_insert == v0.current_insert
    &&& if del_at(v0.st()) is Some {
            v1.last_command@ == cc && v1.last_insert == v0.current_insert && v1.last_count == n && v1.count == 0 && v1.secondary_count == 0
        } else {
            v1.same_record(&v0) && v1.current_command@ == cc && v1.secondary_count == v0.secondary_count
        }
}
pub open spec fn aborted<C: EditorContext>(v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    &&& v1.st() =~= Seq::<Mode>::empty() && v1.count == 0 && v1.same_record(&v0)
    &&& line_is(b, a, a.text(), if ins(v0.st()) { a.eul().push(AV::End) } else { a.eul() }) && rests(b, a.cursor as int)
}
// ---------------------------------------------------------------- motions (C17)
pub open spec fn simple_motion(key: Key, n: u32) -> bool {
    match key {
        Key::Char('h') | Key::Left | Key::Backspace | Key::Char('l') | Key::Right | Key::Char(' ') | Key::Char('w') | Key::Char('W') | Key::Char('e') | Key::Char('E')
        | Key::Char('b') | Key::Char('B') | Key::Char('^') | Key::Home | Key::Char('$') | Key::End => true,
        Key::Char('0') => n == 0,
        _ => false,
    }
}
/// where a motion goes from position c of line t, with count n
pub open spec fn motion_to(key: Key, t: Seq<char>, c: int, n: int) -> int {
    match key {
        Key::Char('h') | Key::Left | Key::Backspace => imax(c - n, 0),
        Key::Char('l') | Key::Right | Key::Char(' ') => imin(c + n, t.len() as int),
        Key::Char('w') => word_steps(t, false, true, false, c, n),
        Key::Char('W') => word_steps(t, true, true, false, c, n),
        Key::Char('e') => word_steps(t, false, true, true, c, n),
        Key::Char('E') => word_steps(t, true, true, true, c, n),
        Key::Char('b') => word_steps(t, false, false, true, c, n),
        Key::Char('B') => word_steps(t, true, false, true, c, n),
        Key::Char('$') | Key::End => t.len() as int,
        _ => 0,
    }
}
/// where f, F, t, T go
pub open spec fn find_to(m: CharMovement, t: Seq<char>, c: int, ch: char, n: int) -> Option<int> {
    match m {
        CharMovement::RightUntil => match nth_from(t, ch, c + 1, n) { Some(i) => Some(i - 1), None => None },
        CharMovement::RightAt => nth_from(t, ch, c + 1, n),
        CharMovement::LeftUntil => match nth_before(t, ch, c, n) { Some(i) => Some(i + 1), None => None },
        CharMovement::LeftAt => nth_before(t, ch, c, n),
        _ => None,
    }
}
pub open spec fn rightwards(m: CharMovement) -> bool { m == CharMovement::RightUntil || m == CharMovement::RightAt }
pub open spec fn opposite(m: CharMovement) -> CharMovement {
    match m {
        CharMovement::RightUntil => CharMovement::LeftUntil, CharMovement::LeftUntil => CharMovement::RightUntil,
        CharMovement::RightAt => CharMovement::LeftAt, CharMovement::LeftAt => CharMovement::RightAt, x => x,
    }
}
/// the find a key stands for; `;` and `,` repeat the last one
pub open spec fn resolve(key: Key, m: CharMovement, last: Option<(char, CharMovement)>) -> Option<(char, CharMovement)> {
    match m {
        CharMovement::Repeat => last,
        CharMovement::ReverseRepeat => match last { Some(x) => Some((x.0, opposite(x.1))), None => None },
        _ => match key { Key::Char(c) => Some((c, m)), _ => None },
    }
}
/// a find completes the pending command (or moves), or goes nowhere and cancels it; n: the count
pub open spec fn finds<C: EditorContext>(key: Key, m: CharMovement, cc0: Seq<Key>, n: u32, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    let cc = if proper(m) { cc0.push(key) } else { cc0 };
    match resolve(key, m, v0.last_char_movement) {
        None => aborted(v0, a, v1, b) && v1.last_char_movement == v0.last_char_movement,
        Some(x) => v1.count == 0 && v1.last_char_movement == (if proper(m) { Some(x) } else { v0.last_char_movement })
            && (match find_to(x.1, a.text(), a.cursor as int, x.0, mc(n)) {
                None => aborted(v0, a, v1, b),
                Some(p) => completes(v0, a, v1, b, p, rightwards(x.1)) && completes_vi(v0, cc, n, v1),
            }),
    }
}
pub open spec fn g_act<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    if key == Key::Char('e') || key == Key::Char('E') {
        completes(v0, a, v1, b, word_steps(a.text(), key == Key::Char('E'), false, false, a.cursor as int, mc(v0.count)), true)
            && completes_vi(v0, v0.current_command@.push(key), v0.count, v1) && v1.count == 0 && v1.last_char_movement == v0.last_char_movement
    } else { aborted(v0, a, v1, b) && v1.last_char_movement == v0.last_char_movement }
}
pub open spec fn common_act<C: EditorContext>(key: Key, a: Editor<C>, b: Editor<C>) -> bool {
    let t = a.text(); let c = a.cursor as int; let n = t.len() as int;
    match key {
        Key::Ctrl('l') => same_line(b, a) && rests(b, c),
        Key::Left => same_line(b, a) && rests(b, imax(c - 1, 0)),
        Key::Right => same_line(b, a) && rests(b, c + 1),
        Key::Home => same_line(b, a) && rests(b, 0),
        Key::End => same_line(b, a) && rests(b, n),
        Key::Backspace => if c > 0 { line_is(b, a, splice_out(t, c - 1, c), a.eul().push(rem_of(t, c - 1, c))) && rests(b, c - 1) } else { same_line(b, a) && rests(b, 0) },
        Key::Delete => if c < n { line_is(b, a, splice_out(t, c, c + 1), a.eul().push(rem_of(t, c, c + 1))) && rests(b, c) } else { same_line(b, a) && rests(b, c) },
        Key::Up => !a.searching() ==> b.new_buf == a.new_buf && !b.hist_buf_valid && (!a.stale() ==> b.up_from(&a)) && b.wf() && rests(b, b.text().len() as int),
        Key::Down => !a.searching() ==> b.new_buf == a.new_buf && !b.hist_buf_valid && b.down_from(&a) && rests(b, b.text().len() as int),
        _ => b == a,
    }
}
pub open spec fn replace_act<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    let t = a.text(); let c = a.cursor as int; let m = mc(v0.count);
    match key {
        Key::Char(x) => v1.st() =~= Seq::<Mode>::empty() && v1.count == 0 && v1.last_char_movement == v0.last_char_movement
            && (if c + m <= t.len() {
                kept(b, a) && b.text() == put_run(t, c, m, x) && rests(b, c + m - 1) && session(a.eul(), t, b.eul(), b.text())
                    && v1.last_insert is None && v1.last_command@ == seq![Key::Char('r'), key] && v1.last_count == v0.count
            } else { line_is(b, a, t, a.eul()) && rests(b, c) && v1.same_record(&v0) }),
        _ => aborted(v0, a, v1, b) && v1.last_char_movement == v0.last_char_movement,
    }
}
pub open spec fn put_run(t: Seq<char>, c: int, m: int, x: char) -> Seq<char> { Seq::new(t.len(), |i: int| if c <= i < c + m { x } else { t[i] }) }
/// l1 is l0 and then edits
pub open spec fn flat_ext(l0: Seq<AV>, l1: Seq<AV>) -> bool { l0.len() <= l1.len() && l1.subrange(0, l0.len() as int) == l0 && forall |i: int| l0.len() <= i < l1.len() ==> is_edit(#[trigger] l1[i]) }
/// log l1 (text t1) is log l0 (text t0) and then edits
#[verifier::opaque]
pub open spec fn flat_edit(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>) -> bool { flat_ext(l0, l1) && undo_to(l1, l0.len() as int, t1) == t0 }
/// log l1 (text t1) is log l0 (text t0), then edits, then the end of their group
pub open spec fn closes(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>) -> bool { l1.len() > 0 && l1.last() == AV::End && flat_edit(l0, t0, l1.drop_last(), t1) }
/// log l1 (text t1) is log l0 (text t0) and then one group of edits
pub open spec fn session(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>) -> bool { closes(l0.push(AV::Start), t0, l1, t1) }
pub proof fn lemma_flat_push(l0: Seq<AV>, l1: Seq<AV>, x: AV) requires flat_ext(l0, l1), is_edit(x) ensures flat_ext(l0, l1.push(x))
{ assert(l1.push(x).subrange(0, l0.len() as int) =~= l1.subrange(0, l0.len() as int)); }
pub proof fn lemma_flat_refl(l: Seq<AV>, t: Seq<char>) ensures flat_edit(l, t, l, t) { reveal(flat_edit); assert(l.subrange(0, l.len() as int) =~= l); }
/// one more edit
pub proof fn lemma_flat_edit(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>, x: AV)
    requires flat_edit(l0, t0, l1, t1), is_edit(x), can_do(x, t1)
    ensures flat_edit(l0, t0, l1.push(x), do_av(x, t1))
{ reveal(flat_edit);
    lemma_flat_push(l0, l1, x); lemma_do_undo(x, t1);
    assert(l1.push(x).drop_last() =~= l1);
}
pub proof fn lemma_flat_cat(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>, l2: Seq<AV>, t2: Seq<char>)
    requires flat_edit(l0, t0, l1, t1), flat_edit(l1, t1, l2, t2)
    ensures flat_edit(l0, t0, l2, t2)
{ reveal(flat_edit);
    lemma_undo_to_split(l2, l1.len() as int, l0.len() as int, t2);
    assert(l2.subrange(0, l0.len() as int) =~= l2.subrange(0, l1.len() as int).subrange(0, l0.len() as int));
    assert forall |i: int| l0.len() <= i < l2.len() implies is_edit(#[trigger] l2[i]) by { if i < l1.len() { assert(l2.subrange(0, l1.len() as int)[i] == l2[i]); } }
}
// ---------------------------------------------------------------- one key (C16-C18)
pub open spec fn is_digit(key: Key) -> bool { match key { Key::Char(c) => '0' <= c && c <= '9', _ => false } }
pub open spec fn digit(key: Key) -> int { (key->Char_0) as int - 48 }
pub open spec fn sat(x: int) -> int { imin(x, u32::MAX as int) }
pub open spec fn with_digit(n: u32, key: Key) -> int { sat(sat(n * 10) + digit(key)) }
/// the count of an operator's motion (C18)
pub open spec fn combine(key: Key, n: u32, m: u32) -> int { if key == Key::Char('0') { 0 } else if m == 0 { n as int } else if n == 0 { m as int } else { sat(m * n) } }
pub open spec fn sub_mode(key: Key) -> Option<Mode> {
    match key {
        Key::Char('t') => Some(Mode::MoveToChar(CharMovement::RightUntil)), Key::Char('T') => Some(Mode::MoveToChar(CharMovement::LeftUntil)),
        Key::Char('f') => Some(Mode::MoveToChar(CharMovement::RightAt)), Key::Char('F') => Some(Mode::MoveToChar(CharMovement::LeftAt)),
        Key::Char('g') => Some(Mode::G), _ => None,
    }
}
pub open spec fn is_motion(key: Key, n: u32) -> bool { simple_motion(key, n) || sub_mode(key) is Some || key == Key::Char(';') || key == Key::Char(',') }
/// a motion key in normal mode or after an operator; cc: the keys of the operator's motion, n: the count
pub open spec fn motion_act<C: EditorContext>(key: Key, cc: Seq<Key>, n: u32, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    if simple_motion(key, n) {
        completes(v0, a, v1, b, motion_to(key, a.text(), a.cursor as int, mc(n)), false) && completes_vi(v0, cc, n, v1)
            && v1.count == 0 && v1.last_char_movement == v0.last_char_movement
    } else if key == Key::Char(';') { finds(key, CharMovement::Repeat, cc, n, v0, a, v1, b) }
    else if key == Key::Char(',') { finds(key, CharMovement::ReverseRepeat, cc, n, v0, a, v1, b) }
    else {
        &&& sub_mode(key) is Some && v1.st() =~= v0.st().push(sub_mode(key)->0)
        &&& v1.current_command@ == cc && v1.current_insert == v0.current_insert && v1.secondary_count == v0.secondary_count && v1.count == n
        &&& v1.same_record(&v0) && v1.last_char_movement == v0.last_char_movement
        &&& line_is(b, a, a.text(), a.eul()) && rests(b, a.cursor as int)
    }
}
/// insert mode begins, with count n
pub open spec fn enters(key: Key, n: u32, v0: Vi, v1: Vi) -> bool {
    v1.st() =~= seq![Mode::Insert] && !v1.movement_reset && v1.last_insert == Some(key) && v1.last_command@ == Seq::<Key>::empty() && v1.count == n
        && v1.last_char_movement == v0.last_char_movement
}
pub open spec fn records(li: Option<Key>, key: Key, n: u32, v0: Vi, v1: Vi) -> bool {
    v1.st() =~= Seq::<Mode>::empty() && v1.last_insert == li && v1.last_command@ == seq![key] && v1.last_count == n && v1.count == 0 && v1.last_char_movement == v0.last_char_movement
}
/// the text when the characters from c to i are flipped, and where that ends
#[verifier::opaque]
pub open spec fn tilde_at(t: Seq<char>, c: int, i: int) -> Seq<char> { t.subrange(0, c) + flips(t.subrange(c, i)) + t.subrange(i, t.len() as int) }
#[verifier::opaque]
pub open spec fn tilde_cur(t: Seq<char>, c: int, i: int) -> int { c + flips(t.subrange(c, i)).len() }
pub proof fn lemma_tilde_0(t: Seq<char>, c: int) requires 0 <= c <= t.len() ensures tilde_at(t, c, c) == t, tilde_cur(t, c, c) == c
{ reveal(tilde_at); reveal(tilde_cur); assert(t.subrange(c, c) =~= Seq::empty()); assert(t.subrange(0, c) + flips(t.subrange(c, c)) + t.subrange(c, t.len() as int) =~= t); }
pub proof fn lemma_tilde(t: Seq<char>, c: int, i: int)
    requires 0 <= c <= i < t.len()
    ensures 0 <= tilde_cur(t, c, i) < tilde_at(t, c, i).len(), tilde_at(t, c, i)[tilde_cur(t, c, i)] == t[i],
        tilde_cur(t, c, i + 1) == tilde_cur(t, c, i) + flip(t[i]).len(),
        splice_in(splice_out(tilde_at(t, c, i), tilde_cur(t, c, i), tilde_cur(t, c, i) + 1), tilde_cur(t, c, i), flip(t[i])) == tilde_at(t, c, i + 1),
        flip(t[i]) == seq![t[i]] ==> tilde_at(t, c, i + 1) == tilde_at(t, c, i),
{
    reveal(tilde_at); reveal(tilde_cur);
    let s1 = t.subrange(c, i + 1);
    assert(s1.drop_last() =~= t.subrange(c, i) && s1.last() == t[i]);
    assert(splice_in(splice_out(tilde_at(t, c, i), tilde_cur(t, c, i), tilde_cur(t, c, i) + 1), tilde_cur(t, c, i), flip(t[i])) =~= tilde_at(t, c, i + 1));
    if flip(t[i]) == seq![t[i]] { assert(tilde_at(t, c, i + 1) =~= tilde_at(t, c, i)); }
}
/// s[j] put in after the first j characters of s
#[verifier::opaque]
pub open spec fn put_in(t: Seq<char>, p: int, s: Seq<char>, j: int) -> Seq<char> { splice_in(t, p, s.subrange(0, j)) }
pub proof fn lemma_put_in(t: Seq<char>, p: int, s: Seq<char>, j: int)
    requires 0 <= p <= t.len(), 0 <= j < s.len() ensures put_in(t, p, s, j + 1) == splice_in(put_in(t, p, s, j), p + j, seq![s[j]]), put_in(t, p, s, j).len() == t.len() + j
{ reveal(put_in); assert(put_in(t, p, s, j + 1) =~= splice_in(put_in(t, p, s, j), p + j, seq![s[j]])); }
pub proof fn lemma_put_in_ends(t: Seq<char>, p: int, s: Seq<char>) requires 0 <= p <= t.len() ensures put_in(t, p, s, 0) == t, put_in(t, p, s, s.len() as int) == splice_in(t, p, s)
{ reveal(put_in); assert(splice_in(t, p, s.subrange(0, 0)) =~= t); assert(s.subrange(0, s.len() as int) =~= s); }
pub open spec fn cut_line<C: EditorContext>(a: Editor<C>, b: Editor<C>, l: Seq<AV>, p: int, q: int) -> bool {
    line_is(b, a, splice_out(a.text(), p, q), l.push(rem_of(a.text(), p, q))) && rests(b, p)
}
pub open spec fn flip(c: char) -> Seq<char> { if c_lower(c) { to_upper(c) } else if c_upper(c) { to_lower(c) } else { seq![c] } }
pub open spec fn flips(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { s } else { flips(s.drop_last()) + flip(s.last()) } }
/// n undos of log l and text s
pub open spec fn undos(l: Seq<AV>, s: Seq<char>, n: int) -> (Seq<AV>, Seq<char>) decreases n {
    if n <= 0 || l.len() == 0 { (l, s) } else { let m = undo_stop(l, 0, false); undos(m, undo_to(l, m.len() as int, s), n - 1) }
}
pub open spec fn redos(l: Seq<AV>, s: Seq<char>, n: int) -> (Seq<AV>, Seq<char>) decreases n {
    if n <= 0 || l.len() == 0 { (l, s) } else { let m = redo_stop(l, 0, false); redos(m, redo_to(l, m.len() as int, s), n - 1) }
}
pub open spec fn via<C: EditorContext>(key: Key, a: Editor<C>, m: Editor<C>, b: Editor<C>) -> bool { common_act(key, a, m) && line_is(b, m, m.text(), m.eul()) }
pub open spec fn history_key(key: Key) -> Option<Key> { match key { Key::Char('k') | Key::Up => Some(Key::Up), Key::Char('j') | Key::Down => Some(Key::Down), _ => None } }
/// a key in normal mode
pub open spec fn normal_act<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    let n = v0.count; let t = a.text(); let c = a.cursor as int; let len = t.len() as int; let s = a.eul().push(AV::Start);
    let lcm = v1.last_char_movement == v0.last_char_movement;
    if is_motion(key, n) { motion_act(key, v0.current_command@, n, v0, a, v1, b) }
    else if is_digit(key) { *(&v1) == (Vi { count: with_digit(n, key) as u32, ..v0 }) && b == a }
    else if history_key(key) is Some {
        v1.st() =~= Seq::<Mode>::empty() && v1.count == 0 && v1.same_record(&v0) && v1.same_pending(&v0) && lcm && (exists |m: Editor<C>| #[trigger] via(history_key(key)->0, a, m, b))
    } else { match key {
        Key::Esc => v1 == (Vi { count: 0, ..v0 }) && b == a,
        Key::Char('i') => enters(key, n, v0, v1) && line_is(b, a, t, s) && rests(b, c),
        Key::Char('a') => enters(key, n, v0, v1) && line_is(b, a, t, s) && rests(b, c + 1),
        Key::Char('A') => enters(key, n, v0, v1) && line_is(b, a, t, s) && rests(b, len),
        Key::Char('I') => enters(key, n, v0, v1) && line_is(b, a, t, s) && rests(b, 0),
        Key::Char('s') => enters(key, 0, v0, v1) && v1.last_count == n && cut_line(a, b, s, c, imin(c + mc(n), len)),
        Key::Char('C') => enters(key, 0, v0, v1) && cut_line(a, b, s, c, len),
        Key::Char('r') => v1.st() =~= seq![Mode::Replace] && v1.count == n && v1.same_record(&v0) && lcm && line_is(b, a, t, a.eul()) && rests(b, c),
        Key::Char('d') => v1.st() =~= seq![Mode::Delete(c as usize)] && v1.count == 0 && v1.secondary_count == n && v1.same_record(&v0) && lcm
            && v1.current_insert is None && v1.current_command@ == seq![key] && line_is(b, a, t, a.eul()) && rests(b, c),
        Key::Char('c') => v1.st() =~= seq![Mode::Insert, Mode::Delete(c as usize)] && v1.count == 0 && v1.secondary_count == n && v1.same_record(&v0) && lcm
            && v1.current_insert == Some(key) && v1.current_command@ == Seq::<Key>::empty() && line_is(b, a, t, s) && rests(b, c),
        Key::Char('D') => records(None, key, 0, v0, v1) && cut_line(a, b, a.eul(), c, len),
        Key::Char('x') | Key::Delete => records(None, key, n, v0, v1) && cut_line(a, b, a.eul(), c, imin(c + mc(n), len)),
        Key::Char('~') => records(None, key, n, v0, v1) && ({
            let e = imin(c + mc(n), len); let f = flips(t.subrange(c, e));
            kept(b, a) && b.text() == t.subrange(0, c) + f + t.subrange(e, len) && session(a.eul(), t, b.eul(), b.text()) && rests(b, c + f.len())
        }),
        Key::Char('u') => v1 == (Vi { count: 0, ..v0 }) && kept(b, a) && (b.eul(), b.text()) == undos(a.eul(), t, mc(n)) && rests(b, if a.eul().len() > 0 { b.text().len() as int } else { c }),
        Key::Ctrl('r') => v1 == (Vi { count: 0, ..v0 }) && kept(b, a) && (b.erl(), b.text()) == redos(a.erl(), t, mc(n)) && rests(b, if a.erl().len() > 0 { b.text().len() as int } else { c }),
        _ => v1 == v0 && common_act(key, a, b),
    } }
}
/// a key after an operator
pub open spec fn op_act<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    let cc = v0.current_command@.push(key); let k = ins(v0.st());
    if mov_key(key) || (key == Key::Char('0') && v0.count == 0) { motion_act(key, cc, combine(key, v0.count, v0.secondary_count) as u32, v0, a, v1, b) }
    else if is_digit(key) { v1 == (Vi { count: with_digit(v0.count, key) as u32, ..v0 }) && b == a }
    else if key == (if k { Key::Char('c') } else { Key::Char('d') }) {
        &&& v1.st() =~= (if k { seq![Mode::Insert] } else { Seq::<Mode>::empty() }) && v1.movement_reset == !k
        &&& v1.last_command@ == cc && v1.last_insert == v0.current_insert && v1.last_count == 0 && v1.count == 0 && v1.last_char_movement == v0.last_char_movement
        &&& line_is(b, a, Seq::empty(), a.eul().push(AV::Rem(0, a.text()))) && rests(b, 0)
    } else { aborted(v0, a, v1, b) && v1.last_char_movement == v0.last_char_movement }
}
/// what a typed key does to the text and the cursor
pub open spec fn type_key(s: (Seq<char>, int), key: Key) -> (Seq<char>, int) {
    match key {
        Key::Char(x) => (splice_in(s.0, s.1, seq![x]), s.1 + 1),
        Key::Backspace => if s.1 > 0 { (splice_out(s.0, s.1 - 1, s.1), s.1 - 1) } else { s },
        Key::Delete => if s.1 < s.0.len() { (splice_out(s.0, s.1, s.1 + 1), s.1) } else { s },
        _ => s,
    }
}
pub open spec fn type_keys(s: (Seq<char>, int), ks: Seq<Key>) -> (Seq<char>, int) decreases ks.len() { if ks.len() == 0 { s } else { type_key(type_keys(s, ks.drop_last()), ks.last()) } }
pub open spec fn type_times(s: (Seq<char>, int), ks: Seq<Key>, n: int) -> (Seq<char>, int) decreases n { if n <= 0 { s } else { type_keys(type_times(s, ks, n - 1), ks) } }
pub open spec fn leaves(key: Key) -> bool { key == Key::Esc || key == Key::Ctrl('[') }
pub open spec fn ups<C: EditorContext>(key: Key, a: Editor<C>, x: Editor<C>, m: Editor<C>, b: Editor<C>) -> bool {
    line_is(x, a, a.text(), a.eul().push(AV::End)) && common_act(key, x, m) && line_is(b, m, m.text(), m.eul().push(AV::Start))
}
/// a key in insert mode
pub open spec fn insert_act<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    let lcm = v1.last_char_movement == v0.last_char_movement;
    if leaves(key) {
        let e = type_times((a.text(), a.cursor as int), v0.last_command@, v0.count - 1);
        &&& v1.st() =~= Seq::<Mode>::empty() && v1.count == 0 && lcm && v1.same_pending(&v0)
        &&& v1.last_command@ == v0.last_command@ && v1.last_insert == v0.last_insert && v1.last_count == (if v0.count > 0 { v0.count } else { v0.last_count })
        &&& kept(b, a) && b.text() == e.0 && rests(b, imax(e.1 - 1, 0)) && closes(a.eul(), a.text(), b.eul(), b.text())
    } else if typed(key) {
        let r = v0.movement_reset;
        &&& v1.st() == v0.st() && !v1.movement_reset && v1.count == v0.count && lcm && v1.same_pending(&v0)
        &&& v1.last_command@ == (if r { seq![key] } else { v0.last_command@.push(key) })
        &&& v1.last_insert == (if r { Some(Key::Char('i')) } else { v0.last_insert }) && v1.last_count == (if r { 0 } else { v0.last_count })
        &&& kept(b, a) && b.no_eol == a.no_eol && b.prompt == a.prompt && b.wf() && (b.text(), b.cursor as int) == type_key((a.text(), a.cursor as int), key)
        &&& flat_edit(if r { a.eul().push(AV::End).push(AV::Start) } else { a.eul() }, a.text(), b.eul(), b.text())
    } else { match key {
        Key::Left | Key::Right | Key::Home | Key::End => v1 == (Vi { count: 0, movement_reset: true, ..v0 }) && common_act(key, a, b),
        Key::Up | Key::Down => v1 == (Vi { count: 0, movement_reset: true, ..v0 }) && (exists |x: Editor<C>, m: Editor<C>| #[trigger] ups(key, a, x, m, b)),
        _ => v1 == v0 && common_act(key, a, b),
    } }
}
/// while what was typed is typed again
pub open spec fn retypes<C: EditorContext>(v0: Vi, a: Editor<C>, v: Vi, b: Editor<C>) -> bool {
    &&& v.count == v0.count && v.st() == v0.st() && v.last_insert == v0.last_insert && v.last_count == v0.count && !v.movement_reset
    &&& v.same_pending(&v0) && v.last_char_movement == v0.last_char_movement
    &&& kept(b, a) && b.prompt == a.prompt && b.no_eol == a.no_eol && b.tf() == a.tf() && flat_edit(a.eul(), a.text(), b.eul(), b.text())
}
/// a key other than the dot of normal mode
#[verifier::opaque]
pub open spec fn vstep<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    &&& b.no_eol == (v1.st().len() == 0)
    &&& match top(v0.st()) {
        Mode::Normal => key != Key::Char('.') && normal_act(key, v0, a, v1, b),
        Mode::Insert => insert_act(key, v0, a, v1, b),
        Mode::Replace => replace_act(key, v0, a, v1, b),
        Mode::Delete(_) => op_act(key, v0, a, v1, b),
        Mode::MoveToChar(m) => finds(key, m, v0.current_command@, v0.count, v0, a, v1, b),
        Mode::G => g_act(key, v0, a, v1, b),
        Mode::Tilde => false,
    }
}
// ---------------------------------------------------------------- repetition (C19)
/// typing ks leads from v, a to w, b
pub open spec fn runs<C: EditorContext>(v: Vi, a: Editor<C>, ks: Seq<Key>, w: Vi, b: Editor<C>) -> bool decreases ks.len() {
    if ks.len() == 0 { w == v && b == a } else { exists |m: Vi, e: Editor<C>| runs(v, a, ks.drop_last(), m, e) && #[trigger] vstep(ks.last(), m, e, w, b) }
}
pub open spec fn dot_count(v: Vi) -> u32 { if v.count > 0 { v.count } else if v.last_count > 0 { v.last_count } else { 1 } }
pub open spec fn dot_keys(v: Vi, j: int) -> Seq<Key> { match v.last_insert { None => v.last_command@.subrange(0, j), Some(k) => seq![k] + v.last_command@.subrange(0, j) } }
/// the dot types the keys of the last change again, with the count; where its motion leads nowhere, not what was typed after it
pub open spec fn again<C: EditorContext>(v0: Vi, a: Editor<C>, w0: Vi, j: int, m: Vi, e: Editor<C>, w1: Vi, v1: Vi, b: Editor<C>) -> bool {
    &&& w0 == (Vi { count: dot_count(v0), last_count: dot_count(v0), last_command: w0.last_command, ..v0 }) && w0.last_command@ == Seq::<Key>::empty()
    &&& 0 <= j <= v0.last_command@.len() && runs(w0, a, dot_keys(v0, j), m, e)
    &&& j == v0.last_command@.len() || (v0.last_insert is Some && m.st().len() == 0)
    &&& match v0.last_insert { None => w1 == m && b == e, Some(_) => vstep(Key::Esc, m, e, w1, b) }
    &&& v1 == (Vi { last_command: v1.last_command, ..w1 })
}
pub open spec fn dot_act<C: EditorContext>(v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool {
    &&& v1.st() =~= Seq::<Mode>::empty() && v1.last_command@ == v0.last_command@ && v1.last_insert == v0.last_insert
    &&& exists |w0: Vi, j: int, m: Vi, e: Editor<C>, w1: Vi| #[trigger] again(v0, a, w0, j, m, e, w1, v1, b)
}
pub proof fn lemma_dot_count<C: EditorContext>(v0: Vi, vx: Vi, a: Editor<C>, v1: Vi, b: Editor<C>)
    requires vx == (Vi { count: dot_count(v0), ..v0 }), dot_act(vx, a, v1, b) ensures dot_act(v0, a, v1, b)
{
    let (w0, j, m, e, w1) = choose |w0: Vi, j: int, m: Vi, e: Editor<C>, w1: Vi| #[trigger] again(vx, a, w0, j, m, e, w1, v1, b);
    assert(dot_keys(vx, j) == dot_keys(v0, j));
    assert(w0 == (Vi { count: dot_count(v0), last_count: dot_count(v0), last_command: w0.last_command, ..v0 }));
    assert(again(v0, a, w0, j, m, e, w1, v1, b));
}
pub open spec fn is_dot(v: Vi, key: Key) -> bool { v.st().len() == 0 && key == Key::Char('.') }
pub open spec fn acts<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> bool { if is_dot(v0, key) { dot_act(v0, a, v1, b) } else { vstep(key, v0, a, v1, b) } }
/// what happens while the keys of a change are typed again: the modes after j keys of change (li, s)
pub open spec fn midway(li: Option<Key>, s: Seq<Key>, j: int, st: Seq<Mode>) -> bool {
    match li {
        None => {
            ||| st.len() == 0 && (j == 0 || j == s.len())
            ||| j == 1 && s[0] == Key::Char('r') && st =~= seq![Mode::Replace]
            ||| j >= 1 && s[0] == Key::Char('d') && !ins(st) && del_at(st) is Some && st.len() == j && j < s.len()
        },
        Some(k) => {
            ||| st =~= seq![Mode::Insert] && (k == Key::Char('c') && s.len() > 0 ==> j >= (if s[0] == Key::Char('c') { 1int } else { motion_at(s, 0) }))
            ||| k == Key::Char('c') && ins(st) && del_at(st) is Some && st.len() == j + 2 && (s.len() > 0 ==> j < motion_at(s, 0) || (s[0] == Key::Char('c') && j == 0))
        },
    }
}
/// one more key of the change
pub proof fn lemma_midway<C: EditorContext>(li: Option<Key>, s: Seq<Key>, j: int, m: Vi, e: Editor<C>, w: Vi, b: Editor<C>)
    requires cmd_ok(li, s), 0 <= j < s.len(), midway(li, s, j, m.st()), m.good(), m.last_insert == li, vstep(s[j], m, e, w, b),
        del_at(m.st()) is Some && m.st().len() == base(m.st()) + 1 ==> m.count == 0, li is Some ==> m.st().len() > 0,
        m.st() =~= seq![Mode::Insert] ==> !m.movement_reset,
    ensures w.last_insert == li, midway(li, s, j + 1, w.st()) || (li is Some && w.st().len() == 0),
        del_at(w.st()) is Some && w.st().len() == base(w.st()) + 1 ==> w.count == 0,
        w.st() =~= seq![Mode::Insert] ==> !w.movement_reset,
{
    reveal(vstep);
}
/// the keys of a change are not the dot of normal mode
pub proof fn lemma_not_dot(li: Option<Key>, s: Seq<Key>, j: int, st: Seq<Mode>)
    requires cmd_ok(li, s), 0 <= j < s.len(), midway(li, s, j, st), li is Some ==> st.len() > 0 ensures st.len() == 0 ==> s[j] != Key::Char('.')
{}
/// the key that enters insert mode again
pub proof fn lemma_begin<C: EditorContext>(k: Key, s: Seq<Key>, m: Vi, e: Editor<C>, w: Vi, b: Editor<C>)
    requires cmd_ok(Some(k), s), m.st().len() == 0, m.last_insert == Some(k), vstep(k, m, e, w, b)
    ensures w.last_insert == Some(k), midway(Some(k), s, 0, w.st()), w.st().len() > 0,
        del_at(w.st()) is Some && w.st().len() == base(w.st()) + 1 ==> w.count == 0,
        w.st() =~= seq![Mode::Insert] ==> !w.movement_reset,
{
    reveal(vstep);
}
/// Esc ends it
pub proof fn lemma_over<C: EditorContext>(m: Vi, e: Editor<C>, w: Vi, b: Editor<C>)
    requires m.good(), vstep(Key::Esc, m, e, w, b) ensures w.st().len() == 0, w.last_insert == m.last_insert
{
    reveal(vstep);
}
pub proof fn lemma_runs<C: EditorContext>(v: Vi, a: Editor<C>, ks: Seq<Key>, m: Vi, e: Editor<C>, k: Key, w: Vi, b: Editor<C>)
    requires runs(v, a, ks, m, e), vstep(k, m, e, w, b) ensures runs(v, a, ks.push(k), w, b)
{ assert(ks.push(k).drop_last() =~= ks); assert(ks.push(k).last() == k); assert(runs(v, a, ks.push(k).drop_last(), m, e)); assert(vstep(ks.push(k).last(), m, e, w, b)); }
pub open spec fn rank(m: Mode, key: Key) -> int { if m == Mode::Normal && key == Key::Char('.') { 2 } else if m == Mode::Insert && leaves(key) { 1 } else { 0 } }
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>) ensures radix == 10 && '0' <= c && c <= '9' ==> r == Some((c as u32 - 48) as u32);
//@ end
//@ derive CharMovement: PartialEq, Eq, Structural, Clone, Copy
//@ derive MoveType: PartialEq, Eq, Structural, Clone, Copy
//@ derive Mode: PartialEq, Eq, Structural, Clone, Copy
//@ derive ViMoveMode: PartialEq, Eq, Structural, Clone, Copy
//@ derive ViMoveDir: PartialEq, Eq, Structural, Clone, Copy
//@ fn ViMoveDir::advance [C17] 
//@ spec
    requires *old(cursor) <= max
    ensures r == (if self == ViMoveDir::Right { *old(cursor) < max } else { *old(cursor) > 0 }), // [C17]
        *final(cursor) == (if !r { *old(cursor) as int } else if self == ViMoveDir::Right { *old(cursor) + 1 } else { *old(cursor) - 1 }), // [C17]
//@ fn ViMoveDir::go_back [C17]
//@ spec
    requires *old(cursor) <= max
    ensures r == (if self == ViMoveDir::Left { *old(cursor) < max } else { *old(cursor) > 0 }), // [C17]
        *final(cursor) == (if !r { *old(cursor) as int } else if self == ViMoveDir::Left { *old(cursor) + 1 } else { *old(cursor) - 1 }), // [C17]
//@ fn ViMoveDir::move_cursor [C17]
//@ spec
    requires *old(cursor) <= max
    ensures r == (if dir == ViMoveDir::Right { *old(cursor) < max } else { *old(cursor) > 0 }), // [C17]
        *final(cursor) == (if !r { *old(cursor) as int } else if dir == ViMoveDir::Right { *old(cursor) + 1 } else { *old(cursor) - 1 }), // [C17]
//@ fn is_vi_keyword [C17]
//@ spec
    ensures r == is_kw(c), // [C17]
//@ fn vi_move_word [C17]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at start
let ghost t = ed.text(); let ghost ws = move_mode == ViMoveMode::Whitespace; let ghost right = direction == ViMoveDir::Right; let ghost c0 = ed.cursor as int;
proof { assert forall |c: char| #![trigger c_space(c)] c_space(c) ==> !is_kw(c) by { ax_space(c); } }
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), // [C17]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), move_mode == ViMoveMode::Whitespace, direction == ViMoveDir::Right, false, old(ed).cursor as int, count as int)), // [C17]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ loop 1
    invariant *ed == *old(ed), 0 <= cursor <= t.len(),
        word_steps(t, ws, right, false, cursor as int, count - vx_i1) == word_steps(t, ws, right, false, c0, count as int),
    ensures *ed == *old(ed), 0 <= cursor <= t.len(), cursor == word_steps(t, ws, right, false, c0, count as int),
//@ at loop 1 start
let ghost c1 = scan(t, ws, right, false, cursor as int);
proof { assert(ed.cur()@ == t); if cursor >= t.len() { lemma_word_stuck(t, ws, right, false, cursor as int, count - vx_i1); } else if right { lemma_word_stuck(t, ws, right, false, t.len() as int, count - vx_i1 - 1); } }
//@ loop 2
    invariant *ed == *old(ed), 0 <= cursor < t.len(), skind(state, ws) == kind(ws, t[cursor as int]),
        scan(t, ws, right, false, cursor as int) == c1,
    ensures *ed == *old(ed), 0 <= cursor < t.len(), cursor == c1,
    decreases (if right { t.len() - cursor } else { cursor as int })
//@ end
//@ fn vi_move_word_end [C17]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at start
let ghost t = ed.text(); let ghost ws = move_mode == ViMoveMode::Whitespace; let ghost right = direction == ViMoveDir::Right; let ghost c0 = ed.cursor as int;
proof { assert forall |c: char| #![trigger c_space(c)] c_space(c) ==> !is_kw(c) by { ax_space(c); } }
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), // [C17]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), move_mode == ViMoveMode::Whitespace, direction == ViMoveDir::Right, true, old(ed).cursor as int, count as int)), // [C17]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ loop 1
    invariant *ed == *old(ed), 0 <= cursor <= t.len(),
        word_steps(t, ws, right, true, cursor as int, count - vx_i1) == word_steps(t, ws, right, true, c0, count as int),
    ensures *ed == *old(ed), 0 <= cursor <= t.len(), cursor == word_steps(t, ws, right, true, c0, count as int),
//@ at loop 1 start
let ghost c1 = scan(t, ws, right, true, cursor as int);
proof { assert(ed.cur()@ == t); if right { lemma_word_stuck(t, ws, right, true, t.len() as int, count - vx_i1 - 1); } }
//@ loop 2
    invariant *ed == *old(ed), 0 <= cursor <= t.len(),
        match state {
            State_vi_move_word_end::Whitespace => scan(t, ws, right, true, cursor as int) == c1,
            _ => cursor < t.len() && ekind(state) == kind(ws, t[cursor as int]) && ekind_ok(state, ws)
                && (if stops(t, ws, right, true, cursor as int) { cursor as int } else { scan(t, ws, right, true, cursor as int) }) == c1,
        },
    ensures *ed == *old(ed), 0 <= cursor <= t.len(), cursor == c1,
    decreases (if right { t.len() - cursor } else { cursor as int })
//@ end
//@ fn move_word [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), false, true, false, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_word_ws [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), true, true, false, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_to_end_of_word_back [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), false, false, false, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_to_end_of_word_ws_back [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), true, false, false, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_to_end_of_word [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), false, true, true, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_to_end_of_word_ws [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), true, true, true, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_word_back [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), false, false, true, old(ed).cursor as int, count as int)), // [C17]
//@ fn move_word_ws_back [C17]
//@ spec
    requires old(ed).wf()
    ensures final(ed).redisplayed(old(ed)), io_rel(old(ed).tf(), final(ed).tf(), r), // [C17,C23]
        r is Ok ==> final(ed).done(word_steps(old(ed).text(), true, false, true, old(ed).cursor as int, count as int)), // [C17]
//@ fn find_char [C17]
//@ replace assert!(count > 0) =>> vx_assert(count > 0)
//@ expand map#1 option_map
//@ spec
    requires count > 0
    ensures match r { Some(i) => nth_from(buf@, ch, start as int, count as int) == Some(i as int) && start <= i < buf@.len(), None => nth_from(buf@, ch, start as int, count as int) is None }, // [C17]
//@ closure 1
    [&(usize, &char)] -> (b: bool)
    ensures b == (*p0.1 == ch)
//@ at start
proof {
    assert(hint(is_pair(ch)));
    lemma_nth_from(buf@, ch, start as int, count as int);
    if start <= buf@.len() { lemma_find(buf@, ch, start as int, count as int); }
    else { reveal(Seq::filter); }
}
//@ fn find_char_rev [C17]
//@ replace assert!(count > 0) =>> vx_assert(count > 0)
//@ expand map#1 option_map
//@ spec
    requires count > 0, start <= buf@.len()
    ensures match r { Some(i) => nth_before(buf@, ch, start as int, count as int) == Some(i as int) && i < start, None => nth_before(buf@, ch, start as int, count as int) is None }, // [C17]
//@ closure 1
    [&(usize, &char)] -> (b: bool)
    ensures b == (*p0.1 == ch)
//@ at start
proof {
    assert(hint(is_pair(ch)));
    lemma_find_rev(buf@, ch, start as int, count as int); lemma_nth_before(buf@, ch, start as int, count as int);
}
//@ end
//@ replace mut ed: &mut Editor<C> =>> ed: &mut Editor<C>
//@ replace &mut ed =>> ed
//@ replace self.0.last().cloned().unwrap_or(Mode::Normal) =>> vx_last_or(&self.0, Mode::Normal)
//@ replace self.0.pop().unwrap_or(Mode::Normal) =>> vx_pop_or(&mut self.0, Mode::Normal)
//@ replace self.mode_stack.0.contains(&Mode::Insert) =>> vx_has(&self.mode_stack.0, Mode::Insert)
//@ fn ModeStack::with_insert [C16]
//@ spec
    ensures r.0@ == seq![Mode::Insert], // [C16]
//@ fn ModeStack::mode [C16]
//@ spec
    ensures r == top(self.0@), // [C16]
//@ fn ModeStack::clear [C16]
//@ spec
    ensures final(self).0@ == Seq::<Mode>::empty(), // [C16]
//@ fn ModeStack::push [C16]
//@ spec
    ensures final(self).0@ == old(self).0@.push(m), // [C16]
//@ fn ModeStack::pop [C16]
//@ spec
    ensures r == top(old(self).0@), final(self).0@ == (if old(self).0@.len() == 0 { old(self).0@ } else { old(self).0@.drop_last() }), // [C16]
//@ fn is_movement_key [C18]
//@ spec
    ensures r == mov_key(key), // [C18]
//@ fn Vi::mode [C16]
//@ spec
    ensures r == top(self.st()), // [C16]
//@ fn Vi::set_editor_mode [C16]
//@ spec
    requires old(ed).inv0()
    ensures mode_set(*old(ed), *final(ed), prompt_mode(top(self.st()))), // [C16]
        r is Ok && prompt_mode(top(self.st())) is Some ==> rests(*final(ed), old(ed).cursor as int), // [C08,C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::set_mode_preserve_last [C16]
//@ spec
    requires old(ed).wf(), mode != Mode::Normal
    ensures *final(self) == (Vi { mode_stack: final(self).mode_stack, movement_reset: mode != Mode::Insert, ..*old(self) }), final(self).st() == old(self).st().push(mode), // [C16]
        line_is(*final(ed), *old(ed), old(ed).text(), old(ed).eul()) || r is Ok, kept(*final(ed), *old(ed)), !final(ed).no_eol,
        r is Ok ==> line_is(*final(ed), *old(ed), old(ed).text(), if mode == Mode::Insert || mode == Mode::Tilde { old(ed).eul().push(AV::Start) } else { old(ed).eul() }) && rests(*final(ed), old(ed).cursor as int), // [C16,C19]
        r is Ok && prompt_mode(mode) is Some ==> shows(*old(ed), *final(ed), prompt_mode(mode)->0), // [C16]
        r is Ok && prompt_mode(mode) is None ==> final(ed).prompt == old(ed).prompt, // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::set_mode [C16]
//@ spec
    requires old(ed).wf(), mode != Mode::Normal
    ensures final(self).st() == old(self).st().push(mode), // [C16]
        r is Ok || mode != Mode::Insert ==> *final(self) == (Vi { mode_stack: final(self).mode_stack, movement_reset: mode != Mode::Insert,
            last_count: if mode == Mode::Insert { 0 } else { old(self).last_count }, last_command: final(self).last_command, ..*old(self) })
            && final(self).last_command@ == (if mode == Mode::Insert { Seq::empty() } else { old(self).last_command@ }), // [C16,C19]
        kept(*final(ed), *old(ed)), !final(ed).no_eol,
        r is Ok ==> line_is(*final(ed), *old(ed), old(ed).text(), if mode == Mode::Insert || mode == Mode::Tilde { old(ed).eul().push(AV::Start) } else { old(ed).eul() }) && rests(*final(ed), old(ed).cursor as int), // [C16,C19]
        r is Ok && prompt_mode(mode) is Some ==> shows(*old(ed), *final(ed), prompt_mode(mode)->0), // [C16]
        r is Ok && prompt_mode(mode) is None ==> final(ed).prompt == old(ed).prompt, // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::pop_mode [C16]
//@ spec
    requires old(ed).wf()
    ensures *final(self) == (Vi { mode_stack: final(self).mode_stack, movement_reset: top(final(self).st()) != Mode::Insert, ..*old(self) }), // [C16]
        final(self).st() == (if old(self).st().len() == 0 { old(self).st() } else { old(self).st().drop_last() }), // [C16]
        kept(*final(ed), *old(ed)), final(ed).no_eol == (top(final(self).st()) == Mode::Normal),
        r is Ok && prompt_mode(top(final(self).st())) is Some ==> shows(*old(ed), *final(ed), prompt_mode(top(final(self).st()))->0)
            && line_is(*final(ed), *old(ed), old(ed).text(), if top(old(self).st()) == Mode::Insert || top(old(self).st()) == Mode::Tilde { old(ed).eul().push(AV::End) } else { old(ed).eul() })
            && rests(*final(ed), old(ed).cursor as int), // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::normal_mode_abort [C16]
//@ spec
    requires old(ed).wf(), shape(old(self).st())
    ensures *final(self) == (Vi { mode_stack: final(self).mode_stack, count: 0, ..*old(self) }), final(self).st() == Seq::<Mode>::empty(), // [C16]
        kept(*final(ed), *old(ed)), final(ed).no_eol,
        r is Ok ==> shows(*old(ed), *final(ed), ViPromptMode::Normal)
            && line_is(*final(ed), *old(ed), old(ed).text(), if ins(old(self).st()) { old(ed).eul().push(AV::End) } else { old(ed).eul() })
            && rests(*final(ed), old(ed).cursor as int), // [C16,C18]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::pop_mode_after_movement [C16,C18,C19]
//@ spec
    requires old(ed).wf(), shape(old(self).st()), top(old(self).st()) != Mode::Insert, top(old(self).st()) != Mode::Replace
    ensures kept(*final(ed), *old(ed)),
        r is Ok ==> completes(*old(self), *old(ed), *final(self), *final(ed), old(ed).cursor as int, move_type == MoveType::Inclusive), // [C18]
        r is Ok ==> completes_vi(*old(self), old(self).current_command@, old(self).count, *final(self)), // [C16,C19]
        r is Ok && del_at(old(self).st()) is None ==> final(self).count == (if old(self).st().len() == 0 { 0 } else { old(self).count }),
        final(self).last_char_movement == old(self).last_char_movement,
        r is Ok ==> final(ed).no_eol == !ins(old(self).st()) && shows(*old(ed), *final(ed), if ins(old(self).st()) { ViPromptMode::Insert } else { ViPromptMode::Normal }), // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ replace mem::swap(&mut self.last_command, &mut self.current_command) =>> vx_swap(&mut self.last_command, &mut self.current_command)
//@ fn Vi::move_count [C17]
//@ spec
    ensures r == mc(self.count), // [C17]
//@ fn Vi::move_count_left [C17]
//@ spec
    ensures r == imin(ed.cursor as int, mc(self.count)), // [C17]
//@ fn Vi::move_count_right [C17]
//@ spec
    requires ed.wf()
    ensures r == imin(ed.text().len() - ed.cursor, mc(self.count)), // [C17]
//@ fn Vi::handle_key_common [C16]
//@ spec
    requires old(ed).wf()
    ensures *final(self) == *old(self),
        final(ed).no_eol == old(ed).no_eol, final(ed).prompt == old(ed).prompt, final(ed).same_env(old(ed)),
        r is Ok ==> common_act(key, *old(ed), *final(ed)), // [C16]
        r is Ok && old(ed).live() ==> final(ed).live(), // [C08]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::handle_key_move_to_char [C17,C18]
//@ replace use self::CharMovement::*; =>> use crate::keymap::vi::CharMovement::*;
//@ fnattr #[verifier::rlimit(60)]
//@ spec
    requires old(ed).wf(), shape(old(self).st()), top(old(self).st()) != Mode::Insert, top(old(self).st()) != Mode::Replace, old(self).find_ok(), old(ed).no_eol == (old(self).st().len() == 0)
    ensures kept(*final(ed), *old(ed)),
        r is Ok ==> finds(key, movement, old(self).current_command@, old(self).count, *old(self), *old(ed), *final(self), *final(ed)), // [C17,C18,C19]
        r is Ok ==> final(ed).no_eol == (final(self).st().len() == 0) && shows(*old(ed), *final(ed), if ins(final(self).st()) { ViPromptMode::Insert } else { ViPromptMode::Normal }), // [C16]
        final(self).find_ok(),
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fn Vi::handle_key_g [C17,C18]
//@ spec
    requires old(ed).wf(), shape(old(self).st()), top(old(self).st()) != Mode::Insert, top(old(self).st()) != Mode::Replace, old(self).find_ok(), old(ed).no_eol == (old(self).st().len() == 0)
    ensures kept(*final(ed), *old(ed)),
        r is Ok ==> g_act(key, *old(self), *old(ed), *final(self), *final(ed)), // [C17,C18,C19]
        r is Ok ==> final(ed).no_eol == (final(self).st().len() == 0) && shows(*old(ed), *final(ed), if ins(final(self).st()) { ViPromptMode::Insert } else { ViPromptMode::Normal }), // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ at start
let ghost t = ed.text(); let ghost c0 = ed.cursor as int;
proof { lemma_steps_range(t, false, false, false, c0, mc(self.count)); lemma_steps_range(t, true, false, false, c0, mc(self.count)); }
//@ fn Vi::handle_key_replace [C18]
//@ spec
    requires old(ed).live(), old(self).st() =~= seq![Mode::Replace], !old(ed).no_eol
    ensures kept(*final(ed), *old(ed)),
        r is Ok ==> replace_act(key, *old(self), *old(ed), *final(self), *final(ed)), // [C18,C19]
        r is Ok ==> final(ed).no_eol && shows(*old(ed), *final(ed), ViPromptMode::Normal), // [C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::rlimit(60)]
//@ at start
let ghost t = ed.text(); let ghost c0 = ed.cursor as int; let ghost l0 = ed.eul();
//@ loop 1
    invariant vx_i1 <= mc(self.count), c0 + mc(self.count) <= t.len(), key == Key::Char(c),
        ed.wf(), kept(*ed, *old(ed)), ed.prompt == old(ed).prompt, !ed.no_eol, ed.tf() == old(ed).tf(),
        ed.cursor == c0 + vx_i1, ed.text() == put_run(t, c0, vx_i1 as int, c), flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text()),
//@ at before loop 1
proof { assert(put_run(t, c0, 0, c) =~= t); lemma_flat_refl(l0.push(AV::Start), t); }
//@ at loop 1 start
let ghost la = ed.eul(); let ghost ta = ed.text();
//@ at loop 1 end
proof {
    assert(ed.text() =~= put_run(t, c0, vx_i1 + 1, c));
    lemma_flat_edit(l0.push(AV::Start), t, la, ta, rem_of(ta, c0 + vx_i1, c0 + vx_i1 + 1));
    lemma_flat_edit(l0.push(AV::Start), t, la.push(rem_of(ta, c0 + vx_i1, c0 + vx_i1 + 1)), splice_out(ta, c0 + vx_i1, c0 + vx_i1 + 1), AV::Ins((c0 + vx_i1) as nat, seq![c]));
}
//@ at after loop 1
let ghost lz = ed.eul();
//@ at after call end_undo_group#1
proof { assert(lz.push(AV::End).drop_last() =~= lz); }
//@ at after call push#2
proof { assert(self.last_command@ =~= seq![Key::Char('r'), key]); }
//@ end
//@ replace c.to_uppercase() =>> vx_to_uppercase(c)
//@ replace c.to_lowercase() =>> vx_to_lowercase(c)
//@ replace mem::replace(&mut self.last_command, Vec::new()) =>> vx_replace(&mut self.last_command, Vec::new())
//@ fn Default for Vi::default [C16]
//@ spec
    ensures r.kms(false) && r.count == 0 && r.last_count == 0 && !r.movement_reset && r.last_insert == Some(Key::Char('i')) && r.last_command@.len() == 0 && r.last_char_movement is None, // [C16,C19]
//@ fn Vi::new [C16]
//@ spec
    ensures r.kms(false) && r.count == 0 && r.last_count == 0 && !r.movement_reset && r.last_insert == Some(Key::Char('i')) && r.last_command@.len() == 0 && r.last_char_movement is None, // [C16,C19]
//@ fn Vi::handle_key_delete_or_change [C18]
//@ fnattr #[verifier::rlimit(60)]
//@ replace mem::swap(&mut self.last_command, &mut self.current_command) =>> vx_swap(&mut self.last_command, &mut self.current_command)
//@ at start
proof { assert(splice_out(ed.text(), 0, ed.text().len() as int) =~= Seq::empty()); assert(ed.text().subrange(0, ed.text().len() as int) =~= ed.text()); }
//@ spec
    requires old(ed).live(), old(self).kmi(old(ed).no_eol, shown(old(ed).prompt)), top(old(self).st()) is Delete
    ensures kept(*final(ed), *old(ed)),
        r is Ok ==> op_act(key, *old(self), *old(ed), *final(self), *final(ed)), // [C18,C19]
        r is Ok ==> final(self).kmi(final(ed).no_eol, shown(final(ed).prompt)) && final(ed).live(), // [C08,C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
    decreases 0int, 2int
//@ fn Vi::handle_key_normal [C16,C17,C18,C19]
//@ cases key: Key::Esc ;; Key::Char('i') | Key::Char('a') | Key::Char('A') | Key::Char('I') ;; Key::Char('s') ;; Key::Char('r') | Key::Char('t') | Key::Char('T') | Key::Char('f') | Key::Char('F') | Key::Char('g') ;; Key::Char('d') ;; Key::Char('c') ;; Key::Char('D') ;; Key::Char('C') ;; Key::Char('.') ;; Key::Char('h') | Key::Left | Key::Backspace ;; Key::Char('l') | Key::Right | Key::Char(' ') ;; Key::Char('k') | Key::Up ;; Key::Char('j') | Key::Down ;; Key::Char(';') | Key::Char(',') ;; Key::Char('w') | Key::Char('W') ;; Key::Char('e') | Key::Char('E') ;; Key::Char('b') | Key::Char('B') ;; Key::Char('0'..='9') ;; Key::Char('^') | Key::Home | Key::Char('$') | Key::End ;; Key::Char('x') | Key::Delete ;; Key::Char('~') ;; Key::Char('u') ;; Key::Ctrl('r') ;; _
//@ casedec rank(top(old(self).st()), key), 0int
//@ fnattr #[verifier::rlimit(250)]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at start
let ghost v0 = *self; let ghost a = *ed; let ghost t = ed.text(); let ghost c0 = ed.cursor as int; let ghost l0 = ed.eul(); let ghost r0 = ed.erl(); let ghost n = t.len() as int; let ghost mut gm = *ed; let ghost mut gv = *self;
proof {
    match key {
        Key::Char('w') => { lemma_steps_range(t, false, true, false, c0, mc(v0.count)); } Key::Char('W') => { lemma_steps_range(t, true, true, false, c0, mc(v0.count)); }
        Key::Char('e') => { lemma_steps_range(t, false, true, true, c0, mc(v0.count)); } Key::Char('E') => { lemma_steps_range(t, true, true, true, c0, mc(v0.count)); }
        Key::Char('b') => { lemma_steps_range(t, false, false, true, c0, mc(v0.count)); } Key::Char('B') => { lemma_steps_range(t, true, false, true, c0, mc(v0.count)); }
        _ => {}
    }
}
//@ at before call repeat#1
proof { gv = *self; }
//@ at before loop 1
let ghost e0 = imin(c0 + mc(v0.count), n);
proof { lemma_tilde_0(t, c0); lemma_flat_refl(l0.push(AV::Start), t); }
//@ loop 1
    invariant vx_i1 <= e0 - c0, ed.wf(), kept(*ed, a), shown(ed.prompt) == shown(a.prompt), !ed.no_eol, ed.tf() == a.tf(),
        ed.text() == tilde_at(t, c0, c0 + vx_i1), ed.cursor == tilde_cur(t, c0, c0 + vx_i1),
        flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text()),
//@ at loop 1 start
let ghost cz = ed.cursor as int; let ghost ta = ed.text(); let ghost tz = splice_out(ta, cz, cz + 1);
proof { lemma_tilde(t, c0, c0 + vx_i1); lemma_flat_edit(l0.push(AV::Start), t, ed.eul(), ta, rem_of(ta, cz, cz + 1)); }
//@ at loop 2 init
proof { lemma_put_in_ends(tz, cz, vx_all2); }
//@ at loop 2 start
let ghost j = vx_all2.len() - vx_it2@.len() - 1;
proof { lemma_put_in(tz, cz, vx_all2, j); lemma_flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text(), AV::Ins(ed.cursor as nat, seq![c])); }
//@ loop 2
    invariant vx_it2@.len() <= vx_all2.len(), vx_it2@ == vx_all2.subrange(vx_all2.len() - vx_it2@.len(), vx_all2.len() as int),
        ed.wf(), kept(*ed, a), shown(ed.prompt) == shown(a.prompt), !ed.no_eol, ed.tf() == a.tf(),
        ed.text() == put_in(tz, cz, vx_all2, vx_all2.len() - vx_it2@.len()), ed.cursor == cz + vx_all2.len() - vx_it2@.len(),
        flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text()),
    ensures vx_it2@.len() == 0
    decreases vx_it2@.len()
//@ at loop 3 init
proof { lemma_put_in_ends(tz, cz, vx_all3); }
//@ at loop 3 start
let ghost j = vx_all3.len() - vx_it3@.len() - 1;
proof { lemma_put_in(tz, cz, vx_all3, j); lemma_flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text(), AV::Ins(ed.cursor as nat, seq![c])); }
//@ loop 3
    invariant vx_it3@.len() <= vx_all3.len(), vx_it3@ == vx_all3.subrange(vx_all3.len() - vx_it3@.len(), vx_all3.len() as int),
        ed.wf(), kept(*ed, a), shown(ed.prompt) == shown(a.prompt), !ed.no_eol, ed.tf() == a.tf(),
        ed.text() == put_in(tz, cz, vx_all3, vx_all3.len() - vx_it3@.len()), ed.cursor == cz + vx_all3.len() - vx_it3@.len(),
        flat_edit(l0.push(AV::Start), t, ed.eul(), ed.text()),
    ensures vx_it3@.len() == 0
    decreases vx_it3@.len()
//@ at after loop 1
proof { reveal(tilde_at); reveal(tilde_cur); }
//@ at after call move_up#1
proof { gm = *ed; }
//@ at after call move_down#1
proof { gm = *ed; }
//@ at tail
proof { if is_dot(v0, key) && vx_r is Ok { lemma_dot_count(v0, gv, a, *self, *ed); } if history_key(key) is Some { assert(vx_r is Ok ==> via(history_key(key)->0, a, gm, *ed)); } }
//@ at before call pop_mode#1
let ghost lz = ed.eul();
proof { assert(t.subrange(c0, e0) == t.subrange(c0, e0)); }
//@ at after call pop_mode#1
proof { assert(lz.push(AV::End).drop_last() =~= lz); }
//@ loop 4
    invariant l0.len() == 0 ==> ed.eul().len() == 0, vx_i4 == 0 ==> ed.eul() == l0, undos(ed.eul(), ed.text(), count - vx_i4) == undos(l0, t, count as int), ed.wf(), kept(*ed, a), ed.prompt == a.prompt, ed.no_eol == a.no_eol, ed.tf() == a.tf(),
        rests(*ed, if l0.len() > 0 && vx_i4 > 0 { ed.text().len() as int } else { c0 }),
    ensures undos(ed.eul(), ed.text(), 0) == undos(l0, t, count as int), rests(*ed, if l0.len() > 0 { ed.text().len() as int } else { c0 })
//@ loop 5
    invariant r0.len() == 0 ==> ed.erl().len() == 0, vx_i5 == 0 ==> ed.erl() == r0, redos(ed.erl(), ed.text(), count - vx_i5) == redos(r0, t, count as int), ed.wf(), kept(*ed, a), ed.prompt == a.prompt, ed.no_eol == a.no_eol, ed.tf() == a.tf(),
        rests(*ed, if r0.len() > 0 && vx_i5 > 0 { ed.text().len() as int } else { c0 }),
    ensures redos(ed.erl(), ed.text(), 0) == redos(r0, t, count as int), rests(*ed, if r0.len() > 0 { ed.text().len() as int } else { c0 })
//@ replace use self::CharMovement::*; =>> use crate::keymap::vi::CharMovement::*;
//@ spec
    requires old(ed).live(), old(self).npre(key), old(ed).no_eol == (old(self).st().len() == 0), shown(old(ed).prompt) is Some ==> shown(old(ed).prompt) == Some(if ins(old(self).st()) { ViPromptMode::Insert } else { ViPromptMode::Normal })
    ensures final(ed).same_env(old(ed)), old(self).st().len() > 0 ==> kept(*final(ed), *old(ed)), // [C10]
        r is Ok && old(self).st().len() > 0 && is_motion(key, old(self).count) ==> motion_act(key, old(self).current_command@, old(self).count, *old(self), *old(ed), *final(self), *final(ed)), // [C17,C18]
        r is Ok && old(self).st().len() > 0 && !is_motion(key, old(self).count) ==> *final(self) == (Vi { count: with_digit(old(self).count, key) as u32, ..*old(self) }) && *final(ed) == *old(ed), // [C18]
        r is Ok && old(self).st().len() == 0 && is_dot(*old(self), key) ==> dot_act(*old(self), *old(ed), *final(self), *final(ed)), // [C19]
        r is Ok && old(self).st().len() == 0 && !is_dot(*old(self), key) ==> normal_act(key, *old(self), *old(ed), *final(self), *final(ed)), // [C16,C17,C18,C19]
        r is Ok ==> final(self).kmi(final(ed).no_eol, shown(final(ed).prompt)) && final(ed).live(), // [C08,C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
    decreases rank(top(old(self).st()), key), 1int
//@ fn Vi::handle_key_insert [C16,C19]
//@ cases key: Key::Esc | Key::Ctrl('[') ;; Key::Char(_) ;; Key::Backspace | Key::Delete ;; Key::Up ;; Key::Down ;; _
//@ casedec rank(top(old(self).st()), key), 0int
//@ fnattr #[verifier::rlimit(100)]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at start
let ghost v0 = *self; let ghost a = *ed; let ghost t0 = ed.text(); let ghost c0 = ed.cursor as int; let ghost l0 = ed.eul(); let ghost ks = self.last_command@;
let ghost mut gx = *ed; let ghost mut gm = *ed;
proof { reveal(vstep); lemma_flat_refl(l0, t0); lemma_flat_refl(l0.push(AV::End).push(AV::Start), t0); }
//@ at before call move_up#1
proof { gx = *ed; }
//@ at before call move_down#1
proof { gx = *ed; }
//@ at before call start_undo_group#3
proof { gm = *ed; }
//@ at before call start_undo_group#4
proof { gm = *ed; }
//@ at tail
proof {
    let l = if v0.movement_reset { l0.push(AV::End).push(AV::Start) } else { l0 };
    match key {
        Key::Char(x) => { lemma_flat_edit(l, t0, l, t0, AV::Ins(c0 as nat, seq![x])); }
        Key::Backspace => { if c0 > 0 { lemma_flat_edit(l, t0, l, t0, rem_of(t0, c0 - 1, c0)); } }
        Key::Delete => { if c0 < t0.len() { lemma_flat_edit(l, t0, l, t0, rem_of(t0, c0, c0 + 1)); } }
        Key::Up | Key::Down => { assert(vx_r is Ok ==> ups(key, a, gx, gm, *ed)); }
        _ => {}
    }
}
//@ loop 1
    invariant 1 <= vx_i1 <= v0.count, self.kmi(ed.no_eol, shown(ed.prompt)), ed.live(), retypes(v0, a, *self, *ed),
        self.last_command@ == ks, (ed.text(), ed.cursor as int) == type_times((t0, c0), ks, vx_i1 - 1),
//@ loop 2
    invariant self.kmi(ed.no_eol, shown(ed.prompt)), ed.live(), retypes(v0, a, *self, *ed), vx_it2@.len() <= ks.len(), vx_it2@ == ks.subrange(ks.len() - vx_it2@.len(), ks.len() as int),
        self.last_command@ == ks.subrange(0, ks.len() - vx_it2@.len()), (ed.text(), ed.cursor as int) == type_keys(type_times((t0, c0), ks, vx_i1 - 1), ks.subrange(0, ks.len() - vx_it2@.len())),
    ensures vx_it2@.len() == 0
    decreases vx_it2@.len()
//@ at loop 2 start
let ghost a1 = *ed; let ghost k1 = self.last_command@;
//@ at loop 2 end
proof {
    let j = ks.len() - vx_it2@.len();
    assert(ks.subrange(0, j).drop_last() =~= k1 && ks.subrange(0, j).last() == ks[j - 1]);
    assert(self.last_command@ =~= ks.subrange(0, j));
    lemma_flat_cat(l0, t0, a1.eul(), a1.text(), ed.eul(), ed.text());
}
//@ at loop 2 init
proof { assert(ks.subrange(0, ks.len() as int) =~= ks); assert(ks.subrange(0, 0) =~= Seq::empty()); }
//@ at before call pop_mode#1
let ghost lz = ed.eul();
//@ at after call pop_mode#1
proof { assert(lz.push(AV::End).drop_last() =~= lz); }
//@ spec
    requires old(ed).live(), old(self).kmi(old(ed).no_eol, shown(old(ed).prompt)), old(self).st().len() == 1, ins(old(self).st())
    ensures final(ed).same_env(old(ed)), // [C10]
        r is Ok ==> insert_act(key, *old(self), *old(ed), *final(self), *final(ed)), // [C16,C19]
        r is Ok ==> final(self).kmi(final(ed).no_eol, shown(final(ed).prompt)) && final(ed).live(), // [C08,C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
    decreases rank(top(old(self).st()), key), 1int
//@ fn Vi::repeat [C19]
//@ fnattr #[verifier::rlimit(100)]
//@ fnattr #[verifier::loop_isolation(false)]
//@ fnattr #[verifier::allow_complex_invariants]
//@ at start
let ghost v0 = *self; let ghost a = *ed; let ghost li = self.last_insert; let ghost mut gj = 0int; let ghost mut gm = *self; let ghost mut ge = *ed;
//@ at after let keys
let ghost w0 = *self; let ghost cmd = keys@;
//@ at after call handle_key_core#1
proof {
    let k = li->0;
    lemma_begin(k, cmd, w0, a, *self, *ed);
    lemma_runs(w0, a, Seq::<Key>::empty(), w0, a, k, *self, *ed);
    assert(dot_keys(v0, 0) =~= Seq::<Key>::empty().push(k));
}
//@ at before loop 1
proof { if li is None { assert(dot_keys(v0, 0) =~= Seq::<Key>::empty()); } }
//@ at before call handle_key_core#2
proof { lemma_not_dot(li, cmd, j, self.st()); }
//@ at before call handle_key_core#3
proof { gm = *self; ge = *ed; }
//@ at after call handle_key_core#3
proof { lemma_over(gm, ge, *self, *ed); }
//@ at before assign last_command#1
let ghost w1 = *self;
proof { if li is None { gm = w1; ge = *ed; } assert(dot_keys(v0, gj) == dot_keys(v0, gj)); }
//@ at tail
proof { assert(again(v0, a, w0, gj, gm, ge, w1, *self, *ed)); }
//@ loop 1
    invariant_except_break 
        midway(li, cmd, cmd.len() - vx_it1@.len(), self.st()), li is Some ==> self.st().len() > 0,
        del_at(self.st()) is Some && self.st().len() == base(self.st()) + 1 ==> self.count == 0,
        self.st() =~= seq![Mode::Insert] ==> !self.movement_reset,
    invariant vx_it1@.len() <= cmd.len(), gj == cmd.len() - vx_it1@.len(), keys@ == cmd,
        forall |i: int| 0 <= i < vx_it1@.len() ==> *(#[trigger] vx_it1@[i]) == cmd[cmd.len() - vx_it1@.len() + i],
        self.kmi(ed.no_eol, shown(ed.prompt)), ed.live(), ed.same_env(&a), ed.tf() == a.tf(), self.last_insert == li,
        runs(w0, a, dot_keys(v0, cmd.len() - vx_it1@.len()), *self, *ed),
    ensures vx_it1@.len() == 0 || (li is Some && self.st().len() == 0), li is None ==> self.st().len() == 0
    decreases vx_it1@.len()
//@ at loop 1 start
let ghost m1 = *self; let ghost e1 = *ed; let ghost j = cmd.len() - vx_it1@.len() - 1;
//@ at after call handle_key_core#2
proof {
    lemma_midway(li, cmd, j, m1, e1, *self, *ed);
    lemma_runs(w0, a, dot_keys(v0, j), m1, e1, cmd[j], *self, *ed);
    assert(dot_keys(v0, j).push(cmd[j]) =~= dot_keys(v0, j + 1));
    gj = j + 1;
}
//@ spec
    requires old(ed).live(), old(self).kmi(old(ed).no_eol, shown(old(ed).prompt)), old(self).st().len() == 0, old(self).count > 0
    ensures final(ed).same_env(old(ed)), // [C10]
        r is Ok ==> dot_act(*old(self), *old(ed), *final(self), *final(ed)), // [C19]
        r is Ok ==> final(self).kmi(final(ed).no_eol, shown(final(ed).prompt)) && final(ed).live(), // [C08,C16]
        io_rel(old(ed).tf(), final(ed).tf(), r), // [C23]
    decreases 1int, 4int
//@ implx KeyMap for Vi
    open spec fn kmi(&self, no_eol: bool, shown: Option<ViPromptMode>) -> bool {
        self.good() && no_eol == (self.st().len() == 0) && (shown is Some ==> shown == Some(if ins(self.st()) { ViPromptMode::Insert } else { ViPromptMode::Normal }))
    }
    open spec fn kms(&self, no_eol: bool) -> bool { self.good() && self.st() =~= seq![Mode::Insert] && !no_eol }
//@ fn KeyMap for Vi::init [C16]
//@ spec
    ensures r is Ok ==> *final(self) == *old(self) && shows(*old(ed), *final(ed), ViPromptMode::Insert)
        && line_is(*final(ed), *old(ed), old(ed).text(), old(ed).eul().push(AV::Start)), // [C16]
//@ fn KeyMap for Vi::handle_key_core [C16,C17,C18,C19]
//@ fnattr #[verifier::rlimit(60)]
//@ at start
proof { reveal(vstep); }
//@ spec
    ensures r is Ok ==> acts(key, *old(self), *old(ed), *final(self), *final(ed)), // [C16,C17,C18,C19]
    decreases rank(top(old(self).st()), key), 3int
//@ end
//@ epilogue
/*VXB keymap::vi::theorem_esc [C16]*/
/// from any state one Esc leads to normal mode with nothing pending; from normal mode it changes nothing
pub proof fn theorem_esc<C: EditorContext>(m: Vi, e: Editor<C>, w: Vi, b: Editor<C>)
    requires m.good(), vstep(Key::Esc, m, e, w, b)
    ensures w.st().len() == 0, w.count == 0, m.st().len() == 0 ==> b == e
{ reveal(vstep); }
/*VXE*/
/*VXB keymap::vi::lemma_edits [C16]*/
pub proof fn lemma_edits(u: Seq<AV>)
    requires forall |i: int| 0 <= i < u.len() ==> is_edit(#[trigger] u[i])
    ensures depth(u) == 0, has_edit(u) == (u.len() > 0)
    decreases u.len()
{ if u.len() > 0 { assert(is_edit(u[u.len() - 1])); assert forall |i: int| 0 <= i < u.drop_last().len() implies is_edit(#[trigger] u.drop_last()[i]) by { assert(u.drop_last()[i] == u[i]); } lemma_edits(u.drop_last()); } }
/*VXE*/
/*VXB keymap::vi::lemma_group [C16]*/
/// the group of an insert session: one unit, or empty
pub proof fn lemma_group(e: Seq<AV>)
    requires forall |i: int| 0 <= i < e.len() ==> is_edit(#[trigger] e[i])
    ensures e.len() > 0 ==> unit(seq![AV::Start] + e + seq![AV::End]), e.len() == 0 ==> empties(seq![AV::Start] + e + seq![AV::End])
{
    let u = seq![AV::Start] + e + seq![AV::End];
    lemma_edits(e);
    let s = seq![AV::Start]; let z = seq![AV::End];
    assert(s.drop_last() =~= Seq::<AV>::empty() && z.drop_last() =~= Seq::<AV>::empty());
    assert(depth(Seq::<AV>::empty()) == 0 && !has_edit(Seq::<AV>::empty()));
    assert(depth(s) == -1 && !has_edit(s) && depth(z) == 1 && !has_edit(z));
    lemma_cat(s, e); lemma_cat(s + e, z);
    assert forall |i: int| 0 < i < u.len() implies depth(#[trigger] from(u, i)) > 0 by {
        let f = e.subrange(i - 1, e.len() as int);
        assert(from(u, i) =~= f + z);
        assert forall |k: int| 0 <= k < f.len() implies is_edit(#[trigger] f[k]) by { assert(f[k] == e[i - 1 + k]); }
        lemma_edits(f); lemma_cat(f, z);
    }
}
/*VXE*/
/*VXB keymap::vi::theorem_session_undo [C16]*/
/// one undo takes back a whole insert session: log l1 (text t1) is log l0 (text t0) and one session
pub proof fn theorem_session_undo(l0: Seq<AV>, t0: Seq<char>, l1: Seq<AV>, t1: Seq<char>)
    requires session(l0, t0, l1, t1)
    ensures undo_to(l1, l0.len() as int, t1) == t0, l1.len() > l0.len() + 2 ==> undo_stop(l1, 0, false) == l0, l1.len() <= l0.len() + 2 ==> l1 == l0.push(AV::Start).push(AV::End)
{
    reveal(flat_edit);
    let lz = l1.drop_last(); let n = l0.len() as int; let ls = l0.push(AV::Start);
    let e = lz.subrange(n + 1, lz.len() as int);
    assert forall |i: int| 0 <= i < e.len() implies is_edit(#[trigger] e[i]) by { assert(e[i] == lz[n + 1 + i]); }
    lemma_group(e);
    let u = seq![AV::Start] + e + seq![AV::End];
    assert forall |i: int| 0 <= i < l1.len() implies #[trigger] l1[i] == (l0 + u + Seq::<AV>::empty())[i] by {
        if i <= n { assert(lz.subrange(0, n + 1)[i] == lz[i]); assert(ls[i] == lz[i]); }
        else if i < lz.len() { assert(e[i - n - 1] == lz[i]); }
    }
    assert(l1 =~= l0 + u + Seq::<AV>::empty());
    assert(empties(Seq::<AV>::empty()));
    if e.len() > 0 { lemma_undo_one_unit(l0, u, Seq::empty()); } else { assert(l1 =~= l0.push(AV::Start).push(AV::End)); }
    // the text
    lemma_undo_to_step(lz, n + 1, t1);
    assert(undo_to(l1, lz.len() as int, t1) == t1) by { reveal_with_fuel(undo_to, 2); }
    lemma_undo_to_split(l1, lz.len() as int, n, t1);
    assert(upto(l1, lz.len() as int) =~= lz);
    assert(lz.subrange(0, n + 1)[n] == lz[n]);
}
/*VXE*/
/*VXB keymap::vi::lemma_opens [C16]*/
/// the keys that enter insert mode open the session
pub proof fn lemma_opens<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>)
    requires opens(key), v0.st().len() == 0, normal_act(key, v0, a, v1, b), a.wf()
    ensures v1.st() =~= seq![Mode::Insert], !v1.movement_reset, flat_edit(a.eul().push(AV::Start), a.text(), b.eul(), b.text()),
        opens_plain(key) ==> b.text() == a.text(), v1.last_command@ == Seq::<Key>::empty()
{
    let l = a.eul().push(AV::Start); let t = a.text(); let c = a.cursor as int;
    lemma_flat_refl(l, t);
    if key == Key::Char('s') { lemma_flat_edit(l, t, l, t, rem_of(t, c, imin(c + mc(v0.count), t.len() as int))); }
    if key == Key::Char('C') { lemma_flat_edit(l, t, l, t, rem_of(t, c, t.len() as int)); }
}
/*VXE*/
/*VXB keymap::vi::lemma_types [C16,C19]*/
/// typing in insert mode
pub proof fn lemma_types<C: EditorContext>(v: Vi, a: Editor<C>, ks: Seq<Key>, w: Vi, b: Editor<C>)
    requires v.st() =~= seq![Mode::Insert], !v.movement_reset, runs(v, a, ks, w, b), typed_from(ks, 0)
    ensures w.st() =~= seq![Mode::Insert], !w.movement_reset, w.count == v.count, w.last_command@ == v.last_command@ + ks, w.last_insert == v.last_insert, w.last_count == v.last_count,
        flat_edit(a.eul(), a.text(), b.eul(), b.text()), (b.text(), b.cursor as int) == type_keys((a.text(), a.cursor as int), ks)
    decreases ks.len()
{
    if ks.len() == 0 {
        lemma_flat_refl(a.eul(), a.text());
        assert(w.last_command@ =~= v.last_command@ + ks);
    } else {
        let (m, e) = choose |m: Vi, e: Editor<C>| runs(v, a, ks.drop_last(), m, e) && #[trigger] vstep(ks.last(), m, e, w, b);
        assert forall |j: int| 0 <= j < ks.drop_last().len() implies typed(#[trigger] ks.drop_last()[j]) by { assert(ks.drop_last()[j] == ks[j]); }
        lemma_types(v, a, ks.drop_last(), m, e);
        assert(typed(ks[ks.len() - 1]));
        reveal(vstep);
        assert(insert_act(ks.last(), m, e, w, b));
        lemma_flat_cat(a.eul(), a.text(), e.eul(), e.text(), b.eul(), b.text());
        assert((v.last_command@ + ks.drop_last()).push(ks.last()) =~= v.last_command@ + ks);
    }
}
/*VXE*/
/*VXB keymap::vi::theorem_insert_session [C16]*/
/// entering insert mode, typing and leaving it is one group: one undo takes all of it back
pub proof fn theorem_insert_session<C: EditorContext>(key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>, ks: Seq<Key>, w: Vi, e: Editor<C>, w1: Vi, z: Editor<C>)
    requires opens(key), v0.st().len() == 0, a.wf(), normal_act(key, v0, a, v1, b), runs(v1, b, ks, w, e), typed_from(ks, 0), vstep(Key::Esc, w, e, w1, z)
    ensures session(a.eul(), a.text(), z.eul(), z.text()), w1.st().len() == 0
{
    lemma_opens(key, v0, a, v1, b);
    lemma_types(v1, b, ks, w, e);
    reveal(vstep);
    let l = a.eul().push(AV::Start);
    lemma_flat_cat(l, a.text(), b.eul(), b.text(), e.eul(), e.text());
    lemma_flat_cat(l, a.text(), e.eul(), e.text(), z.eul().drop_last(), z.text());
}
/*VXE*/
/*VXB keymap::vi::theorem_operator [C18]*/
/// d or c and a motion: what lies between the cursor and where the motion goes is deleted, with the counts multiplied
pub proof fn theorem_operator<C: EditorContext>(op: Key, key: Key, v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>, v2: Vi, e: Editor<C>)
    requires op == Key::Char('d') || op == Key::Char('c'), v0.st().len() == 0, a.wf(), vstep(op, v0, a, v1, b), vstep(key, v1, b, v2, e), mov_key(key), simple_motion(key, 1)
    ensures v2.count == 0, v2.st() =~= (if op == Key::Char('c') { seq![Mode::Insert] } else { Seq::<Mode>::empty() }),
        ({ let p = motion_to(key, a.text(), a.cursor as int, imin(mc(v0.count) * mc(v1.count), u32::MAX as int));
           e.text() == cut_text(a.text(), p, a.cursor as int, false) && rests(e, imin(p, a.cursor as int))
            && e.eul() == cut_log(a.text(), if op == Key::Char('c') { a.eul().push(AV::Start) } else { a.eul() }, p, a.cursor as int, false) })
{
    reveal(vstep);
    assert(v1.secondary_count == v0.count && v1.count == 0);
    assert(b.cursor == a.cursor);
    assert(op_act(key, v1, b, v2, e));
    let n = combine(key, v1.count, v1.secondary_count) as u32;
    assert(motion_act(key, v1.current_command@.push(key), n, v1, b, v2, e));
    assert(simple_motion(key, n));
    assert(del_at(v1.st()) == Some(a.cursor));
}
/*VXE*/
/*VXB keymap::vi::theorem_dot_command [C19]*/
/// the dot after a change of one key (x, Delete, D, ~) is that key again, with the count
pub proof fn theorem_dot_command<C: EditorContext>(v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>) -> (r: (Vi, Vi))
    requires v0.st().len() == 0, dot_act(v0, a, v1, b), v0.last_insert is None, v0.last_command@.len() == 1, v0.last_command@[0] != Key::Char('.')
    ensures r.0.count == dot_count(v0), r.0.st() == v0.st(), normal_act(v0.last_command@[0], r.0, a, r.1, b), v1.st().len() == 0
{
    let (w0, j, m, e, w1) = choose |w0: Vi, j: int, m: Vi, e: Editor<C>, w1: Vi| #[trigger] again(v0, a, w0, j, m, e, w1, v1, b);
    let ks = dot_keys(v0, 1);
    assert(dot_keys(v0, j) == ks);
    let (m0, e0) = choose |m0: Vi, e0: Editor<C>| runs(w0, a, ks.drop_last(), m0, e0) && #[trigger] vstep(ks.last(), m0, e0, m, e);
    assert(m0 == w0 && e0 == a);
    reveal(vstep);
    (w0, m)
}
/*VXE*/
/*VXB keymap::vi::lemma_times [C19]*/
pub proof fn lemma_times(s: (Seq<char>, int), ks: Seq<Key>, n: int)
    requires n >= 0 ensures type_times(type_keys(s, ks), ks, n) == type_times(s, ks, n + 1) decreases n
{ if n > 0 { lemma_times(s, ks, n - 1); } else { assert(type_times(s, ks, 0) == s); } }
/*VXE*/
/*VXB keymap::vi::theorem_dot_insert [C19]*/
/// the dot after text typed with i types it as often as the count says, where the cursor is, as one group
pub proof fn theorem_dot_insert<C: EditorContext>(v0: Vi, a: Editor<C>, v1: Vi, b: Editor<C>)
    requires v0.st().len() == 0, a.wf(), dot_act(v0, a, v1, b), v0.last_insert == Some(Key::Char('i')), typed_from(v0.last_command@, 0)
    ensures b.text() == type_times((a.text(), a.cursor as int), v0.last_command@, dot_count(v0) as int).0, session(a.eul(), a.text(), b.eul(), b.text()), v1.st().len() == 0
{
    let cmd = v0.last_command@;
    let (w0, j, m, e, w1) = choose |w0: Vi, j: int, m: Vi, e: Editor<C>, w1: Vi| #[trigger] again(v0, a, w0, j, m, e, w1, v1, b);
    let ks = dot_keys(v0, j); let k = Key::Char('i');
    let (s, b0) = lemma_runs_first(w0, a, k, cmd.subrange(0, j), m, e);
    assert(normal_act(k, w0, a, s, b0) && b0.no_eol == (s.st().len() == 0)) by { reveal(vstep); }
    lemma_opens(k, w0, a, s, b0);
    assert(rests(b0, a.cursor as int));
    assert(b0.cursor == a.cursor);
    assert(typed_from(cmd.subrange(0, j), 0)) by { assert forall |x: int| 0 <= x < j implies typed(#[trigger] cmd.subrange(0, j)[x]) by { assert(cmd.subrange(0, j)[x] == cmd[x]); } }
    lemma_types(s, b0, cmd.subrange(0, j), m, e);
    assert(j == cmd.len());
    assert(cmd.subrange(0, j) =~= cmd);
    assert(m.last_command@ =~= cmd);
    assert(s.count == dot_count(v0));
    theorem_insert_session(k, w0, a, s, b0, cmd, m, e, w1, b);
    assert(insert_act(Key::Esc, m, e, w1, b)) by { reveal(vstep); }
    lemma_times((a.text(), a.cursor as int), cmd, dot_count(v0) - 1);
}
/*VXE*/
/*VXB keymap::vi::lemma_runs_first [C19]*/
pub proof fn lemma_runs_first<C: EditorContext>(v: Vi, a: Editor<C>, k: Key, ks: Seq<Key>, w: Vi, b: Editor<C>) -> (r: (Vi, Editor<C>))
    requires runs(v, a, seq![k] + ks, w, b) ensures vstep(k, v, a, r.0, r.1), runs(r.0, r.1, ks, w, b)
    decreases ks.len()
{
    let f = seq![k] + ks;
    let (m, e) = choose |m: Vi, e: Editor<C>| runs(v, a, f.drop_last(), m, e) && #[trigger] vstep(f.last(), m, e, w, b);
    if ks.len() == 0 {
        assert(f.drop_last() =~= Seq::<Key>::empty());
        assert(m == v && e == a);
        (w, b)
    } else {
        assert(f.drop_last() =~= seq![k] + ks.drop_last());
        let r = lemma_runs_first(v, a, k, ks.drop_last(), m, e);
        assert(f.last() == ks.last());
        assert(runs(r.0, r.1, ks, w, b));
        r
    }
}
/*VXE*/
