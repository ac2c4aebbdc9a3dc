prop='C05'
needs='a history entry equal to the typed text'
breaks='the browsing list also lists entries equal to the typed text'
edits=[('src/history.rs',r"""contains && !starts && tested != search_term""",r"""contains && !starts""")]
demo='''mod util;
use util::*;
fn main() {
    let mut h = History::new();
    for l in ["abc", "xabc", "abc def", "abc", "q"] { h.push(Buffer::from(l)).unwrap(); }
    check("subset", h.get_history_subset(&Buffer::from("abc")), vec![1usize, 2]);
}
'''
