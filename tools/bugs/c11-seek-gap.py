prop='C11'
needs='a seek forward over bytes that have not been read yet, followed by a read'
breaks='the reader fetches the skipped bytes in place of the ones sought'
edits=[('sdk/src/mozakvm/inputtape.rs', '        let old_len = self.internal_buf.len();', '        let old_len = self.internal_buf.len().max(self.read_offset);')]
deps=['txkit']
demo='''use txkit::guest::{self, End};
use txkit::script::{Handler, Op, Script, Shape};
use txkit::reference::Record;
fn main() {
    let ops = vec![Op::Open { public: true }, Op::Read { public: true, len: 2 }, Op::Seek { public: true, whence: 1, offset: -3 }, Op::Read { public: true, len: 3 }];
    let script = Script { direct: true, limit: 0, handlers: vec![Handler { ops, reply: Shape::default() }] };
    let r = Record { me: [1; 32], calls: vec![], events: vec![], events_commitment: [0; 32], cast_commitment: [0; 32], public: (10..30).collect(), private: vec![] };
    let ran = guest::run(&script, r.encode(), &[], 10_000_000);
    assert_eq!(ran.end, End::Clean);
    let want = [1u8, 3, 0, 0, 0, 27, 28, 29];
    assert!(ran.log.windows(8).any(|w| w == want), "{:?}", ran.log);
}
'''
