prop='C23'
needs='the terminal fails exactly when the line break of a finished line is written'
breaks='a failure to write the line break behind a finished line is ignored'
edits=[('src/editor.rs',r"""            self.context.terminal_mut().write_all(b"\r\n")?;
            self.show""",r"""            let _ = self.context.terminal_mut().write_all(b"\r\n");
            self.show""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    for n in 0..40 {
        let (mut e, t) = editor(&[], "abc");
        t.0.borrow_mut().fail_in = Some(n);
        let r = e.handle_newline();
        let injected = t.0.borrow().fail_in.is_none();
        check(&format!("error at write {n} is reported"), r.is_err(), injected);
    }
}
'''
