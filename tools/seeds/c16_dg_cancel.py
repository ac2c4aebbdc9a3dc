prop='C16'
needs='an operator with a g motion given up by an invalid key, and another key'
breaks='an invalid key after dg leaves the operator pending'
edits=[('src/keymap/vi.rs',r"""            // not a supported command
            _ => {
                self.normal_mode_abort(ed)?;
                Ok(())
            }
        };

        self.count = 0;""",r"""            // not a supported command
            _ => self.pop_mode(ed),
        };

        self.count = 0;""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "one two");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b0dg\\x1bw");
    check("dg Esc w", (text(&e).as_str(), e.cursor()), ("one two", 4));
}
'''
