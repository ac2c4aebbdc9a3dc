prop='C11'
needs='a reverse search with exactly two matches repeated past the oldest'
breaks='repeating a reverse search stops at the oldest match'
edits=[('src/editor.rs',r"""                } else if p > 0 {
                    Some(p - 1)
                } else {
                    Some(self.history_subset_index.len() - 1)
                }""",r"""                } else {
                    Some(p.saturating_sub(1))
                }""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&["abc", "x", "abc2"], "ab");
    let mut m = Emacs::new();
    for _ in 0..3 { key(&mut m, &mut e, Key::Ctrl('r')).unwrap(); }
    e.accept_autosuggestion().unwrap();
    check("match", text(&e).as_str(), "abc2");
}
'''
