prop='C25'
needs='a name with letters outside ASCII, case ignored'
breaks='ignoring case only works for ASCII letters of the entries'
edits=[('src/complete.rs',r"""file_name.to_string_lossy().to_lowercase()""",r"""file_name.to_string_lossy().to_ascii_lowercase()""")]
demo='''mod util;
use util::*;
fn main() {
    use liner::{Completer, FilenameCompleter};
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let ask = |w: &str| { let mut c = FilenameCompleter::new(Some(d.clone())); let mut v = c.completions(w); v.sort(); v };

    std::fs::write(d.join("\\u{c9}t\\u{e9}"), "").unwrap();
    let mut c = FilenameCompleter::with_case_sensitivity(Some(d.clone()), false);
    check("folded", c.completions("\\u{e9}t"), vec!["\\u{c9}t\\u{e9}".to_string()]);
}
'''
