#![allow(dead_code)]
// terminal stand-in and a private pty on standard output (the display code asks it for its size)
pub use liner::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io;
use std::rc::Rc;
#[derive(Default)]
pub struct S { pub out: Vec<u8>, pub keys: VecDeque<io::Result<Key>>, pub fail_in: Option<usize> }
#[derive(Clone, Default)]
pub struct T(pub Rc<RefCell<S>>);
impl T {
    fn tick(&self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        match s.fail_in {
            Some(0) => { s.fail_in = None; Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected")) }
            Some(n) => { s.fail_in = Some(n - 1); Ok(()) }
            None => Ok(()),
        }
    }
}
impl io::Write for T {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.tick()?; self.0.borrow_mut().out.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { self.tick() }
}
impl Tty for T {
    fn next_key(&mut self) -> Option<io::Result<Key>> { self.0.borrow_mut().keys.pop_front() }
    fn width(&self) -> io::Result<usize> { Ok(80) }
}
pub type Cx = Context<T>;
pub type Ed = Editor<Cx>;
pub fn pty() {
    unsafe {
        let (mut m, mut s) = (0, 0);
        assert_eq!(libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()), 0);
        let ws = libc::winsize { ws_row: 24, ws_col: 80, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(s, libc::TIOCSWINSZ, &ws);
        libc::dup2(s, 1);
    }
}
pub fn editor(hist: &[&str], init: &str) -> (Ed, T) {
    let t = T::default();
    let mut c: Cx = Context::with_terminal(t.clone());
    for h in hist { c.history.buffers.push_back(Buffer::from(*h)); }
    (Editor::new_with_init_buffer(Prompt::from("$ "), None, c, Buffer::from(init)).unwrap(), t)
}
pub struct Cands(pub Vec<&'static str>);
impl Completer for Cands {
    fn completions(&mut self, _: &str) -> Vec<String> { self.0.iter().map(|s| s.to_string()).collect() }
}
pub fn text(e: &Ed) -> String { e.current_buffer().chars().collect() }
/// Vi keys: `\x1b` is Esc, `\n` Enter
pub fn keys<M: KeyMap>(m: &mut M, e: &mut Ed, ks: &str) -> Vec<io::Result<bool>> {
    ks.chars().map(|c| {
        let k = match c { '\x1b' => Key::Esc, '\n' => Key::Char('\n'), '\x7f' => Key::Backspace, c => Key::Char(c) };
        key(m, e, k)
    }).collect()
}
pub fn key<M: KeyMap>(m: &mut M, e: &mut Ed, k: Key) -> io::Result<bool> { m.handle_key(k, e, &mut Cands(vec![])) }
pub fn check<A: std::fmt::Debug + PartialEq<B>, B: std::fmt::Debug>(what: &str, got: A, want: B) {
    if got != want {
        eprintln!("{what}: got {got:?}, expected {want:?}");
        std::process::exit(1);
    }
}
