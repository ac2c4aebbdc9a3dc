//! Harness plumbing: case counting, pseudo-random numbers, a terminal stand-in and a private pty.
use liner::*;
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::fmt;
use std::hash::{Hash, Hasher};
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

pub type Ck = Result<(), String>;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

pub struct Run {
    pub rng: Rng,
    pub start: Instant,
    pub budget: f64,
    pub thorough: bool,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub fail: Option<String>,
    pub scratch: std::path::PathBuf,
    section_end: f64,
}
impl Run {
    pub fn new(seed: u64, budget: f64, thorough: bool, scratch: std::path::PathBuf) -> Run {
        Run {
            rng: Rng(seed.wrapping_mul(0x5851F42D4C957F2D) ^ 0xC0FFEE),
            start: Instant::now(),
            budget,
            thorough,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            fail: None,
            scratch,
            section_end: budget,
        }
    }
    /// the next section may use at most this fraction of the time that is left
    pub fn section(&mut self, frac: f64) {
        let now = self.start.elapsed().as_secs_f64();
        self.section_end = now + (self.budget - now).max(0.0) * frac;
    }
    /// keep going?
    pub fn go(&self) -> bool {
        self.fail.is_none() && self.start.elapsed().as_secs_f64() < self.section_end
    }
    /// runs one case; `desc` is the replayable input
    pub fn case<F: FnOnce() -> Ck>(&mut self, desc: &dyn Fn() -> String, nontrivial: bool, f: F) {
        if self.fail.is_some() {
            return;
        }
        self.evals += 1;
        let d = desc();
        note_case(&d);
        let r = catch_unwind(AssertUnwindSafe(f));
        CASE_START.store(0, Ordering::SeqCst);
        let res = match r {
            Ok(r) => r,
            Err(e) => Err(format!("panicked: {}", panic_msg(&*e))),
        };
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            d.hash(&mut h);
            let new = self.distinct.insert(h.finish());
            let n = self.distinct.len();
            if new && (n <= 3 || (n.is_power_of_two() && self.samples.len() < 12)) {
                self.samples.push(d.clone());
            }
        }
        if let Err(m) = res {
            self.fail = Some(format!("input: {}\nfailure: {}", d, m));
        }
    }
}
// ------------------------------------------------------------------ the case under way
// kept where it survives a hang, an abort or running out of memory
static CASE_START: AtomicU64 = AtomicU64::new(0);
static CASE_MEM: AtomicUsize = AtomicUsize::new(0);
const CASE_MAX: usize = 1 << 16;
fn now_ms() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).map(|d| d.as_millis() as u64).unwrap_or(1)
}
fn note_case(d: &str) {
    let p = CASE_MEM.load(Ordering::SeqCst) as *mut u8;
    if !p.is_null() {
        let n = d.len().min(CASE_MAX - 8);
        unsafe {
            std::ptr::write_volatile(p as *mut u64, n as u64);
            std::ptr::copy_nonoverlapping(d.as_ptr(), p.add(8), n);
        }
    }
    CASE_START.store(now_ms(), Ordering::SeqCst);
}
/// map the file that holds the current case, and watch for a case that does not end
pub fn watch(file: &str, limit_s: u64) {
    if file.is_empty() {
        return;
    }
    let c = std::ffi::CString::new(file).unwrap();
    unsafe {
        let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT, 0o644);
        if fd < 0 || libc::ftruncate(fd, CASE_MAX as i64) != 0 {
            return;
        }
        let p = libc::mmap(std::ptr::null_mut(), CASE_MAX, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0);
        if p != libc::MAP_FAILED {
            CASE_MEM.store(p as usize, Ordering::SeqCst);
        }
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now_ms().saturating_sub(s) > limit_s * 1000 {
            std::process::exit(97);
        }
    });
}

pub fn panic_msg(e: &(dyn std::any::Any + Send)) -> String {
    let at = LAST_PANIC.with(|p| p.borrow().clone());
    let m = if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    format!("{m} {at}")
}
thread_local! {
    pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn chars(s: &str) -> Vec<char> {
    s.chars().collect()
}
pub fn st(v: &[char]) -> String {
    v.iter().collect()
}
pub fn eq<T: PartialEq + fmt::Debug>(what: &str, got: T, want: T) -> Ck {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, expected {want:?}"))
    }
}
pub fn text(b: &Buffer) -> String {
    b.chars().collect()
}

/// all texts over `alpha` of length <= n
pub fn all_texts(alpha: &[char], n: usize) -> Vec<Vec<char>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for t in &last {
            for c in alpha {
                let mut u: Vec<char> = t.clone();
                u.push(*c);
                next.push(u);
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
pub const ALPHA: &[char] = &['a', 'b', 'c', ' ', ' ', '\\', '.', '_', '-', 'é', '€', '世', '😀', '\n', 'A', 'ß', 'İ', '1', '\t', '\u{301}'];
pub fn rand_text(r: &mut Rng, max: usize, alpha: &[char]) -> Vec<char> {
    let n = r.below(max + 1);
    (0..n).map(|_| *r.pick(alpha)).collect()
}

// ------------------------------------------------------------------ terminal stand-in
#[derive(Default)]
pub struct TtyState {
    pub out: Vec<u8>,
    pub keys: VecDeque<io::Result<Key>>,
    pub width: usize,
    /// fail the n-th write/flush from now (0 = next)
    pub fail_in: Option<usize>,
    pub failed: bool,
    pub writes: usize,
    pub width_err: bool,
    /// never forget output
    pub keep: bool,
}
#[derive(Clone, Default)]
pub struct HTty(pub Rc<RefCell<TtyState>>);
impl HTty {
    pub fn new() -> HTty {
        HTty(Rc::new(RefCell::new(TtyState { width: 80, ..Default::default() })))
    }
    fn tick(&self) -> io::Result<()> {
        let mut s = self.0.borrow_mut();
        s.writes += 1;
        match s.fail_in {
            Some(0) => {
                s.failed = true;
                s.fail_in = None;
                Err(io::Error::new(io::ErrorKind::BrokenPipe, "injected"))
            }
            Some(n) => {
                s.fail_in = Some(n - 1);
                Ok(())
            }
            None => Ok(()),
        }
    }
}
impl io::Write for HTty {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.tick()?;
        let mut s = self.0.borrow_mut();
        if s.out.len() > 1 << 14 && !s.keep {
            s.out.clear();
        }
        s.out.extend_from_slice(buf);
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        self.tick()
    }
}
impl Tty for HTty {
    fn next_key(&mut self) -> Option<io::Result<Key>> {
        self.0.borrow_mut().keys.pop_front()
    }
    fn width(&self) -> io::Result<usize> {
        let s = self.0.borrow();
        if s.width_err {
            return Err(io::Error::new(io::ErrorKind::Other, "no width"));
        }
        Ok(s.width)
    }
}
pub type Cx = Context<HTty>;
pub type Ed = Editor<Cx>;

pub fn context(hist: &[Vec<char>]) -> (Cx, HTty) {
    let t = HTty::new();
    let mut c: Cx = Context::with_terminal(t.clone());
    for h in hist {
        c.history.buffers.push_back(Buffer::from(st(h)));
    }
    (c, t)
}
pub fn editor(hist: &[Vec<char>], init: &[char]) -> Result<(Ed, HTty), String> {
    let (c, t) = context(hist);
    Ok((Editor::new_with_init_buffer(Prompt::from("$ "), None, c, Buffer::from(st(init))).map_err(|e| format!("creating the editor failed: {e}"))?, t))
}
pub fn vi_prompt() -> Prompt {
    Prompt { prompt: "$ ".into(), vi_status: Some(ViStatus::new(ViPromptMode::Insert, "<NRM>", "<INS>")) }
}
pub fn hist_of(ed: &Ed) -> Vec<String> {
    ed.context().history.buffers.iter().map(text).collect()
}
pub fn cur(ed: &Ed) -> String {
    text(ed.current_buffer())
}
pub fn strs(v: &[Vec<char>]) -> Vec<String> {
    v.iter().map(|x| st(x)).collect()
}

pub struct Cands(pub Vec<String>);
impl Completer for Cands {
    fn completions(&mut self, _s: &str) -> Vec<String> {
        self.0.clone()
    }
}
pub struct Prefixes(pub Vec<String>);
impl Completer for Prefixes {
    fn completions(&mut self, s: &str) -> Vec<String> {
        self.0.iter().filter(|x| x.starts_with(s)).cloned().collect()
    }
}
pub fn none() -> Cands {
    Cands(vec![])
}

// ------------------------------------------------------------------ private pty on stdout
/// The display code asks the terminal on standard output for its size: give it a pty of our own and
/// report on a saved copy of the real one.
pub struct Pty {
    master: i32,
    pub slave: i32,
    pub saved: i32,
}
impl Pty {
    pub fn install() -> io::Result<Pty> {
        unsafe {
            let mut m = 0;
            let mut s = 0;
            if libc::openpty(&mut m, &mut s, std::ptr::null_mut(), std::ptr::null_mut(), std::ptr::null_mut()) != 0 {
                return Err(io::Error::last_os_error());
            }
            let saved = libc::dup(1);
            if libc::dup2(s, 1) < 0 {
                return Err(io::Error::last_os_error());
            }
            let p = Pty { master: m, slave: s, saved };
            p.size(80);
            Ok(p)
        }
    }
    pub fn size(&self, cols: u16) {
        set_cols(cols);
        let _ = self.master;
    }
}
/// columns reported by the pty on standard output
pub fn set_cols(cols: u16) {
    unsafe {
        let ws = libc::winsize { ws_row: 24, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(1, libc::TIOCSWINSZ, &ws);
    }
}
