prop="C02"
needs="an undo group opened directly inside another one, after an earlier edit"
breaks="the second of two adjacent group starts is not recorded, so one undo takes back more than the group"
edits=[("src/buffer.rs","""    pub fn start_undo_group(&mut self) {
        self.actions.push(Action::StartGroup);""","""    pub fn start_undo_group(&mut self) {
        // a group start right behind another one adds nothing
        if self.actions.last() == Some(&Action::StartGroup) {
            return;
        }
        self.actions.push(Action::StartGroup);""")]
demo='''mod util;
use util::*;
fn main() {
    let mut a = Buffer::new();
    a.insert(0, &['a']);
    a.start_undo_group();
    a.start_undo_group();
    a.insert(1, &['b']);
    a.end_undo_group();
    a.insert(2, &['c']);
    a.end_undo_group();
    check("before undo", String::from(a.clone()), "abc");
    a.undo();
    check("after one undo", String::from(a), "a");
}
'''
