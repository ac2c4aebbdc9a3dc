prop='C25'
needs='an absolute path that ends in a slash'
breaks='completing inside an absolute directory drops its last component'
edits=[('src/complete.rs',r"""} else if !completing_dir && !a.pop() {""",r"""} else if !a.pop() {""")]
demo='''mod util;
use util::*;
fn main() {
    use liner::{Completer, FilenameCompleter};
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let ask = |w: &str| { let mut c = FilenameCompleter::new(Some(d.clone())); let mut v = c.completions(w); v.sort(); v };

    std::fs::create_dir(d.join("x")).unwrap();
    std::fs::write(d.join("x/f"), "").unwrap();
    let p = d.join("x").to_str().unwrap().to_string();
    check("file", ask(&format!("{p}/f")), vec![format!("{p}/f")]);
    check("inside", ask(&format!("{p}/")), vec![format!("{p}/f")]);
}
'''
