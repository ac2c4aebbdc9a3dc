prop="C01"
needs="copying a buffer of the same length that differs from the old text only in the middle"
breaks="copy_buffer keeps the old text when length, first and last character agree"
edits=[("src/buffer.rs","""        let data_len = self.data.len();
        self.remove(0, data_len);
        self.insert(0, &other.data[0..])""","""        let data_len = self.data.len();
        // nothing to do (and nothing to record) when the text is already there
        if data_len == other.data.len()
            && data_len > 2
            && self.data.first() == other.data.first()
            && self.data.last() == other.data.last()
        {
            return;
        }
        self.remove(0, data_len);
        self.insert(0, &other.data[0..])""")]
demo='''mod util;
use util::*;
fn main() {
    let mut a = Buffer::from("abcd");
    a.copy_buffer(&Buffer::from("aXYd"));
    check("copied text", String::from(a), "aXYd");
}
'''
