prop='C16'
needs='a pending change command given up with a key that is no motion'
breaks='giving up a pending command returns to normal mode but the prompt keeps showing the mode of the pending change'
edits=[('src/keymap/vi.rs',r"""            ed.current_buffer_mut().end_undo_group();
        }
        self.set_editor_mode(&mut ed)
    }

    /// When doing""",r"""            ed.current_buffer_mut().end_undo_group();
        }
        ed.display()
    }

    /// When doing""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let t = T::default();
    let c: Cx = Context::with_terminal(t.clone());
    let p = Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "<N>", "<I>")) };
    let mut e = Editor::new_with_init_buffer(p, None, c, Buffer::from("one two")).unwrap();
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1bc");
    t.0.borrow_mut().out.clear();
    keys(&mut m, &mut e, "Z");
    let out = String::from_utf8(t.0.borrow().out.clone()).unwrap();
    check("text", text(&e).as_str(), "one two");
    check("shows normal mode", out.contains("<N>"), true);
}
'''
