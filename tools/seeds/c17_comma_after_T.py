prop='C17'
needs='a T motion taken back in the other direction with a comma'
breaks='the comma after T moves onto the character instead of next to it'
edits=[('src/keymap/vi.rs',r"""(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightUntil),""",r"""(_, ReverseRepeat, Some((c, LeftUntil))) => (Key::Char(c), RightAt),""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "abcxdefxg");
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b05lTx,");
    check("T then comma", e.cursor(), 6);
}
'''
