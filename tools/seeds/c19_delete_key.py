prop='C19'
needs='an insertion session that uses the Delete key, repeated with the dot'
breaks='the Delete key pressed while inserting is not recorded for the dot key'
edits=[('src/keymap/vi.rs',r"""                self.last_command.push(key);
                self.handle_key_common(key, ed)""",r"""                if key == Key::Backspace {
                    self.last_command.push(key);
                }
                self.handle_key_common(key, ed)""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "abc abc");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b0iX");
    key(&mut m, &mut e, Key::Delete).unwrap();
    keys(&mut m, &mut e, "\\x1b");
    check("first", text(&e).as_str(), "Xbc abc");
    keys(&mut m, &mut e, "4l.");
    check("repeated", text(&e).as_str(), "Xbc Xbc");
}
'''
