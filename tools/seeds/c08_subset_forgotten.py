prop='C08'
needs='typed text that matches two entries, browsing up, back down to the new line, and up again'
breaks='returning to the new line forgets the list of matching entries but not the place in it (panic when browsing again)'
edits=[('src/editor.rs',r"""                    } else {
                        self.cur_history_loc = None;
                        self.history_subset_loc = None;
                        self.history_subset_index.clear();""",r"""                    } else {
                        self.cur_history_loc = None;
                        self.history_subset_index.clear();""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&["ab1", "ab2", "ab3"], "ab");
    let mut m = Emacs::new();
    for k in [Key::Up, Key::Down, Key::Up] { key(&mut m, &mut e, k).unwrap(); }
    check("shown", text(&e).as_str(), "ab3");
}
'''
