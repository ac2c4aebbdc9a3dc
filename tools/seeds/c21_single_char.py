prop='C21'
needs='several candidates whose longest common prefix is one character'
breaks='a common prefix of one character is not found'
edits=[('src/util.rs',r"""    while end > 0 {""",r"""    while end > 1 {""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let (mut e, _) = editor(&[], "");
    let mut c = Cands(vec!["ab", "ac"]);
    e.complete(&mut c).unwrap();
    check("prefix", text(&e).as_str(), "a");
}
'''
