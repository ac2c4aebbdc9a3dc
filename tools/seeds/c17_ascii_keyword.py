prop='C17'
needs='a word with a letter outside ASCII'
breaks='word motions take letters outside ASCII for punctuation'
edits=[('src/keymap/vi.rs',r"""c == '_' || c.is_alphanumeric()""",r"""c == '_' || c.is_ascii_alphanumeric()""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "né été x");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b0w");
    check("w", e.cursor(), 3);
    keys(&mut m, &mut e, "e");
    check("e", e.cursor(), 5);
}
'''
