prop="C03"
needs="a text whose last argument contains a tab or another non-space blank"
breaks="last_arg splits at every white space character instead of at spaces"
edits=[("src/buffer.rs","""            .split(|&c| c == ' ')
            .filter(|s| !s.is_empty())""","""            .split(|c| c.is_whitespace())
            .filter(|s| !s.is_empty())""")]
demo='''mod util;
use util::*;
fn main() {
    let a = Buffer::from("ls a\\tb");
    let l: Option<String> = a.last_arg().map(|x| x.iter().collect());
    check("last argument", l.as_deref(), Some("a\\tb"));
}
'''
