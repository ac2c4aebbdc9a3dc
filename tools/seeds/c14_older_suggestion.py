prop='C14'
needs='two history entries that continue the typed text, the newer one being the newest entry of all'
breaks='the newest history entry is never suggested'
edits=[('src/editor.rs',r"""                        .get_newest_match(Some(context_history.len()), &self.new_buf)""",r"""                        .get_newest_match(
                            Some(context_history.len().saturating_sub(1)),
                            &self.new_buf,
                        )""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&["abc", "abd"], "");
    let mut m = Emacs::new();
    keys(&mut m, &mut e, "ab");
    e.accept_autosuggestion().unwrap();
    check("accepted", text(&e).as_str(), "abd");
}
'''
