prop='C18'
needs='a count before and one of two or more digits after an operator, the product exceeding 16 bits or not'
breaks='the counts before and after an operator are added when the second has more than one digit'
edits=[('src/keymap/vi.rs',r"""                        self.secondary_count.saturating_mul(self.count)
""",r"""                        match self.count {
                            0..=9 => self.secondary_count.saturating_mul(self.count),
                            _ => self.secondary_count.saturating_add(self.count),
                        }
""")]
demo='''mod util;
use util::*;
fn main() {
    pty();
    let s: String = "abcdefghijklmnopqrstuvwxyz0123456789".into();
    let (mut e, _) = editor(&[], &s);
    let mut m = Vi::new();
    m.init(&mut e).unwrap();
    keys(&mut m, &mut e, "\\x1b02d12l");
    check("2d12l", text(&e).as_str(), &s[24..]);
}
'''
