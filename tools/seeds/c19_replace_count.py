prop='C19'
needs='a counted r, repeated after a change with another count'
breaks='repeating r uses the count of an earlier change'
edits=[('src/keymap/vi.rs',r"""                    self.last_command.push(Key::Char('r'));
                    self.last_command.push(key);
                    self.last_count = self.count;
""",r"""                    self.last_command.push(Key::Char('r'));
                    self.last_command.push(key);
                    if self.count > 0 {
                        self.last_count = self.count;
                    }
""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "abcdefghij");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b03xryl.");
    check("3x ry l .", text(&e).as_str(), "yyfghij");
}
'''
