prop='C06'
needs="a history file line with spaces before a '#'"
breaks="lines whose first non-blank is '#' are skipped when loading"
edits=[('src/history.rs',r"""                        if !line.starts_with('#') {
                            self.buffers""",r"""                        if !line.trim_start().starts_with('#') {
                            self.buffers""")]
demo='''mod util;
use util::*;
fn main() {
    let f = format!("{}/h", std::env::var("SCRATCH").unwrap());
    std::fs::write(&f, "one\\n  # two\\n#three\\n").unwrap();
    let mut h = History::new();
    h.set_file_name_and_load_history(&f).unwrap();
    let v: Vec<String> = (&h).into_iter().map(|b| b.to_string()).collect();
    check("entries", v.join("|").as_str(), "one|  # two");
}
'''
