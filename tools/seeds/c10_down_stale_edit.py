prop='C10'
needs='a shown entry is edited, then the next newer one is shown'
breaks='moving down keeps showing the edited copy of the previous entry'
edits=[('src/editor.rs',r"""            self.search(true)
        } else {
            self.hist_buf_valid = false;
""",r"""            self.search(true)
        } else {
""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&["one", "two", "three"], "");
    let mut m = Emacs::new();
    for k in [Key::Up, Key::Up, Key::Char('x'), Key::Down] { key(&mut m, &mut e, k).unwrap(); }
    check("shown", text(&e).as_str(), "three");
}
'''
