prop='C22'
needs='a CSI sequence that ends in a lower case letter other than m'
breaks='CSI sequences end at any upper case letter or m only'
edits=[('src/util.rs',r"""AnsiState::Csi if c.is_ascii_alphabetic()""",r"""AnsiState::Csi if c.is_ascii_uppercase() || c == 'm'""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let t = T::default();
    let c: Cx = Context::with_terminal(t.clone());
    let _e = Editor::new_with_init_buffer(Prompt::from("\\x1b[5hab\\x1b[1m$ "), None, c, Buffer::from("x\\ny")).unwrap();
    let out = String::from_utf8(t.0.borrow().out.clone()).unwrap();
    check("column of the second line", out.contains("\\x1b[4C"), true);
}
'''
