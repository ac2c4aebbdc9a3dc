prop='C25'
needs='a symbolic link to a directory among the entries'
breaks='links to directories are offered without the trailing slash'
edits=[('src/complete.rs',r"""if dir.path().is_dir() {""",r"""if dir.file_type().map(|t| t.is_dir()).unwrap_or(false) {""")]
demo='''mod util;
use util::*;
fn main() {
    use liner::{Completer, FilenameCompleter};
    let d = std::path::PathBuf::from(std::env::var("SCRATCH").unwrap());
    let ask = |w: &str| { let mut c = FilenameCompleter::new(Some(d.clone())); let mut v = c.completions(w); v.sort(); v };

    std::fs::create_dir(d.join("data")).unwrap();
    std::os::unix::fs::symlink(d.join("data"), d.join("link")).unwrap();
    check("link", ask("li"), vec!["link/".to_string()]);
    check("dir", ask("da"), vec!["data/".to_string()]);
}
'''
