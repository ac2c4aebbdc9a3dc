prop='C09'
needs='a redo through the editor with the cursor not at the end'
breaks='redo leaves the cursor where it is instead of moving it to the end of the line'
edits=[('src/editor.rs',r"""        let did = cur_buf_mut!(self).redo();
        if did {
            self.move_cursor_to_end_of_line()?;
        } else {
            self.display()?;
        }
        Ok(did)""",r"""        let did = cur_buf_mut!(self).redo();
        self.display()?;
        Ok(did)""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "");
    e.insert_str_after_cursor("abc").unwrap();
    e.undo().unwrap();
    check("redo", e.redo().unwrap(), true);
    check("text", text(&e).as_str(), "abc");
    check("cursor", e.cursor(), 3);
}
'''
