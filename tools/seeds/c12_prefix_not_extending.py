prop='C12'
needs='several candidates whose common prefix is longer than the word but does not start with it'
breaks='completing replaces the word by a common prefix that does not extend it'
edits=[('src/editor.rs',r"""s.len() > word.len() && s.starts_with(&word[..])""",r"""s.len() > word.len()""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "say xy");
    let mut c = Cands(vec!["abcd", "abce"]);
    e.complete(&mut c).unwrap();
    check("text", text(&e).as_str(), "say xy");
}
'''
