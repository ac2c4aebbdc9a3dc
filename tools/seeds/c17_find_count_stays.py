prop='C17'
needs='a find motion with a count, followed by another motion'
breaks='the count of a find motion is not forgotten when it has been used: the next motion uses it as well'
edits=[('src/keymap/vi.rs',r"""                self.pop_mode_after_movement(move_type, ed)?;
                self.count = 0;
                Ok(())
            }

            // can't""",r"""                self.pop_mode_after_movement(move_type, ed)
            }

            // can't""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "axbxcxdxexfx");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b02fxl");
    check("2fx l", e.cursor(), 4);
}
'''
