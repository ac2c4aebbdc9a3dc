prop='C20'
needs='Ctrl-W with the cursor behind spaces'
breaks='Ctrl-W deletes nothing when there is a space before the cursor'
edits=[('src/keymap/emacs.rs',r"""            'w' => ed.delete_word_before_cursor(true),""",r"""            'w' => ed.delete_word_before_cursor(false),""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "one two  ");
    let mut m = Emacs::new();
    key(&mut m, &mut e, Key::Ctrl('w')).unwrap();
    check("Ctrl-W", text(&e).as_str(), "one ");
}
'''
