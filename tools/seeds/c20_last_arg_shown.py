prop='C20'
needs='Alt-. while a history entry is shown'
breaks='Alt-. always starts from the newest history entry, also when another one is shown'
edits=[('src/keymap/emacs.rs',r"""            None => ed
                .current_history_location()
                .unwrap_or(ed.context().history().len() - 1),""",r"""            None => ed.context().history().len() - 1,""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&["a one", "b two", "c three"], "");
    let mut m = Emacs::new();
    key(&mut m, &mut e, Key::Up).unwrap();
    key(&mut m, &mut e, Key::Up).unwrap();
    key(&mut m, &mut e, Key::Alt('.')).unwrap();
    check("shown entry", text(&e).as_str(), "b twotwo");
}
'''
