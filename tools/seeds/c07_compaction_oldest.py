prop='C07'
needs='thirty writes with incremental append, without loading duplicates, and a file longer than its limit'
breaks='compaction of an overfull file drops the newest lines instead of the oldest'
edits=[('src/history.rs',r"""            for _ in 0..pop_out {
                buf.pop_front();
            }""",r"""            for _ in 0..pop_out {
                buf.pop_back();
            }""")]
demo='''mod util;
use util::*;
fn main() {
    let f = format!("{}/h", std::env::var("SCRATCH").unwrap());
    let mut h = History::new();
    h.set_file_name_and_load_history(&f).unwrap();
    h.inc_append = true;
    h.load_duplicates = false;
    h.set_max_file_size(10);
    for i in 0..30 { h.push(Buffer::from(format!("l{i}"))).unwrap(); }
    let s = std::fs::read_to_string(&f).unwrap();
    check("last line", s.lines().last(), Some("l29"));
}
'''
