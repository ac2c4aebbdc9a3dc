prop='C04'
needs='the maximum is lowered below the number of entries before the next line is added'
breaks='adding a line drops at most one entry, so that the maximum is exceeded after it was lowered'
edits=[('src/history.rs',r"""        while self.buffers.len() > self.max_buffers_size {""",r"""        if self.buffers.len() > self.max_buffers_size {""")]
demo='''mod util;
use util::*;
fn main() {
    let mut h = History::new();
    for i in 0..10 { h.push(Buffer::from(format!("l{i}"))).unwrap(); }
    h.set_max_buffers_size(3);
    h.push(Buffer::from("new")).unwrap();
    let v: Vec<String> = (&h).into_iter().map(|b| b.to_string()).collect();
    check("entries", v.join(" ").as_str(), "l8 l9 new");
}
'''
