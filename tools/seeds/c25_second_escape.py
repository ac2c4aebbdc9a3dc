prop='C25'
needs='a typed path with two escaped spaces'
breaks='only the first escaped space of a typed path stands for a space'
edits=[('src/complete.rs',r"""start.replace(r"\ ", " ")""",r"""start.replacen(r"\ ", " ", 1)""")]
demo='''mod util;
use util::*;
fn main() {
    use liner::{Completer, FilenameCompleter};
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let ask = |w: &str| { let mut c = FilenameCompleter::new(Some(d.clone())); let mut v = c.completions(w); v.sort(); v };

    std::fs::write(d.join("a b c"), "").unwrap();
    check("one", ask("a\\\\ b"), vec!["a\\\\ b\\\\ c".to_string()]);
    check("two", ask("a\\\\ b\\\\ c"), vec!["a\\\\ b\\\\ c".to_string()]);
}
'''
