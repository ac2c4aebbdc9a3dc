prop='C12'
needs='a completer that offers a candidate twice, not next to each other'
breaks='the offered list keeps duplicates'
edits=[('src/editor.rs',r"""            completions.sort();
            completions.dedup();""",r"""            completions.dedup();
            completions.sort();""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "");
    let mut c = Cands(vec!["b", "a", "b"]);
    let mut seen = vec![];
    for _ in 0..4 { e.complete(&mut c).unwrap(); seen.push(text(&e)); }
    check("cycle", seen.join(",").as_str(), ",a,b,a");
}
'''
