prop='C25'
needs='a typed directory whose name contains a space'
breaks="only the entry's name is escaped, not the typed directory in front of it"
edits=[('src/complete.rs',r"""b.push(s.as_ref());

                matches.push(b.to_string_lossy().replace(" ", r"\ "));""",r"""b.push(s.replace(" ", r"\ "));

                matches.push(b.to_string_lossy().into_owned());""")]
demo='''mod util;
use util::*;
fn main() {
    use liner::{Completer, FilenameCompleter};
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let ask = |w: &str| { let mut c = FilenameCompleter::new(Some(d.clone())); let mut v = c.completions(w); v.sort(); v };

    std::fs::create_dir(d.join("my dir")).unwrap();
    std::fs::write(d.join("my dir/a b"), "").unwrap();
    check("plain", ask("my"), vec!["my\\\\ dir/".to_string()]);
    check("in a directory", ask("my\\\\ dir/a"), vec!["my\\\\ dir/a\\\\ b".to_string()]);
}
'''
