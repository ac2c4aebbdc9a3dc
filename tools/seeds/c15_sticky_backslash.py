prop='C15'
needs='a backslash in front of a word, before the space that ends it'
breaks='a backslash before a word keeps its effect until the next space'
edits=[('src/context.rs',r"""                word_start = None;
            }
        } else if c != ' ' {
            word_start = Some(i);
        }

        just_had_backslash = false;""",r"""                word_start = None;
            }
            just_had_backslash = just_had_backslash && c != ' ' && i == start;
        } else if c != ' ' {
            word_start = Some(i);
        } else {
            just_had_backslash = false;
        }""")]
demo='''mod util;
use util::*;
fn main() {
    let w = get_buffer_words(&Buffer::from("\\\\a b"));
    check("words", w, vec![(1usize, 2usize), (3, 4)]);
}
'''
