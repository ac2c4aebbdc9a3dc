prop='C13'
needs='Enter while the cursor is inside a line that ends in a backslash'
breaks='Enter looks at the last character of the line instead of the one before the cursor'
edits=[('src/editor.rs',r"""let char_before_cursor = cur_buf!(self).char_before(self.cursor);""",r"""let char_before_cursor = cur_buf!(self).char_before(cur_buf!(self).num_chars());""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "abc\\\\");
    let mut m = Emacs::new();
    key(&mut m, &mut e, Key::Left).unwrap();
    check("Enter ends the line", key(&mut m, &mut e, Key::Char('\\n')).unwrap(), true);
    check("text", text(&e).as_str(), "abc\\\\");
}
'''
