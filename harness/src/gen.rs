//! Structured document generator: produces the text of a document together with
//! the value it means (by construction) and where each value is in the text.
//!
//! Everything is inside the dialect described in DESIGN.md. With `compat` set the
//! text is also plain YAML 1.2, so that libyaml can be used as a second opinion.
use crate::model::M;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Opts {
    /// Stay inside of what libyaml agrees is YAML.
    pub compat: bool,
    /// Put bytes that are not UTF-8 in strings, keys and comments.
    pub bytes: bool,
    /// `\r\n` line endings.
    pub crlf: bool,
    /// Maximum number of nodes.
    pub nodes: usize,
    pub depth: usize,
    /// Allow duplicate keys.
    pub dups: bool,
    /// Allow comments.
    pub comments: bool,
    /// Always end in a line break.
    pub final_nl: bool,
    /// Allow block scalars.
    pub blocks: bool,
    /// Root must be a collection.
    pub collection: bool,
    /// Allow `%YAML` / `---` headers.
    pub header: bool,
    /// No trailing whitespace or lines which only consist of spaces.
    pub tidy: bool,
    /// Indent block collections with tabs as well.
    pub tabs: bool,
    /// Block collections may start on the same line as a header.
    pub header_line: bool,
    /// Separate with tabs as well.
    pub gaps: bool,
    /// Nest deeply instead of widely.
    pub chain: bool,
    /// What to overdo, if anything.
    pub big: Big,
}

/// Documents of ordinary shape stay well clear of the sizes where lengths,
/// columns, counters and depths stop fitting in one byte, or where buffers fill
/// up. These do not.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Big {
    No,
    /// Strings, keys and comments of hundreds to tens of thousands of bytes.
    Long,
    /// Indentation and gaps of hundreds of columns.
    Wide,
    /// Hundreds of blank lines in a row.
    Blank,
    /// Hundreds of items in one collection.
    Items,
    /// Nesting of a hundred levels and more.
    Deep,
}

impl Opts {
    pub fn compat() -> Self {
        Opts {
            compat: true,
            bytes: false,
            crlf: false,
            nodes: 24,
            depth: 5,
            dups: false,
            comments: true,
            final_nl: true,
            blocks: true,
            collection: false,
            header: true,
            tidy: false,
            tabs: false,
            header_line: false,
            gaps: false,
            chain: false,
            big: Big::No,
        }
    }
    /// Overdo something.
    pub fn grow(&mut self, rng: &mut Rng) {
        self.big = *rng.pick(&[Big::Long, Big::Long, Big::Wide, Big::Blank, Big::Items, Big::Deep]);
        self.chain = false;
        self.nodes = match self.big {
            Big::Items => *rng.pick(&[140, 258, 300, 530]),
            Big::Deep => *rng.pick(&[100, 130, 160, 220]),
            _ => self.nodes.min(24),
        };
        if self.big == Big::Deep {
            self.chain = true;
            // The parser libyaml is used through has a limit.
            self.depth = if self.compat { 100 } else { 220 };
        }
    }
    /// Overdo nothing.
    pub fn small(&mut self) {
        if std::mem::replace(&mut self.big, Big::No) == Big::Deep {
            self.chain = false;
            self.depth = 5;
        }
        self.nodes = self.nodes.min(90);
    }
    /// At most this many nodes, unless that is what is being overdone.
    pub fn limit(&mut self, nodes: usize) {
        if !matches!(self.big, Big::Items | Big::Deep) {
            self.nodes = self.nodes.min(nodes);
        }
    }
    pub fn random(rng: &mut Rng) -> Self {
        let mut o = Opts::compat();
        o.nodes = [1, 4, 12, 24, 40, 90][rng.below(6)];
        o.depth = rng.range(1, 7);
        o.crlf = rng.pct(10);
        o.comments = rng.pct(75);
        o.final_nl = rng.pct(75);
        if rng.pct(3) {
            o.chain = true;
            o.nodes = rng.range(10, 60);
            o.depth = 60;
        }
        o
    }
    pub fn wild(rng: &mut Rng) -> Self {
        let mut o = Opts::random(rng);
        o.compat = rng.pct(40);
        if !o.compat {
            o.bytes = rng.pct(40);
            o.dups = rng.pct(20);
            if rng.pct(10) {
                o.tabs = true;
                o.blocks = false;
            }
            o.header_line = rng.pct(20);
            o.gaps = rng.pct(20);
        }
        if rng.below(80) == 0 {
            o.grow(rng);
        }
        o
    }
}

/// Where a value is in the text.
#[derive(Clone, Debug, Default)]
pub struct Sp {
    /// The text of the value, without surrounding whitespace.
    pub span: (usize, usize),
    /// Right after the `:`, `-`, or the `[` or `,` leading to the value.
    pub ind: usize,
    /// End of whatever precedes this item in its collection: the end of the
    /// previous value, or the beginning of the collection.
    pub prev: usize,
    /// The text of the key, if any.
    pub key: (usize, usize),
    pub kids: Vec<Sp>,
}

impl Sp {
    pub fn get(&self, path: &[crate::model::Step]) -> &Sp {
        let mut s = self;
        for p in path {
            s = &s.kids[p.0];
        }
        s
    }
}

pub struct Doc {
    pub text: Vec<u8>,
    pub model: M,
    pub sp: Sp,
    /// Ids of the comments present, in order.
    pub comments: usize,
    /// Constructs used, as a bit set (see `F_*`).
    pub features: u64,
}

pub const F_HEADER: u64 = 1;
pub const F_COMMENT: u64 = 2;
pub const F_BARE: u64 = 4;
pub const F_SINGLE: u64 = 8;
pub const F_DOUBLE: u64 = 16;
pub const F_ESCAPE: u64 = 32;
pub const F_LITERAL: u64 = 64;
pub const F_FOLDED: u64 = 128;
pub const F_BMAP: u64 = 256;
pub const F_BSEQ: u64 = 512;
pub const F_FMAP: u64 = 1024;
pub const F_FSEQ: u64 = 2048;
pub const F_EMPTY: u64 = 4096;
pub const F_NUM: u64 = 8192;
pub const F_QKEY: u64 = 1 << 14;
pub const F_COMPACT: u64 = 1 << 15;
pub const F_TRAILING: u64 = 1 << 16;
pub const F_MULTIFLOW: u64 = 1 << 17;
pub const F_BYTES: u64 = 1 << 18;
pub const F_CRLF: u64 = 1 << 19;
pub const F_SAMEIND: u64 = 1 << 20;
pub const F_NEXTLINE: u64 = 1 << 21;
pub const F_TABS: u64 = 1 << 22;
pub const F_HEADERLINE: u64 = 1 << 23;
pub const F_GAPS: u64 = 1 << 24;

pub const F_BIG: u64 = 25;

pub const FEATURES: &[&str] = &[
    "header", "comment", "bare", "single", "double", "escape", "literal", "folded", "block-map",
    "block-seq", "flow-map", "flow-seq", "empty-null", "number", "quoted-key", "compact-nesting",
    "trailing-comma", "multi-line-flow", "non-utf8", "crlf", "seq-at-key-indent", "value-on-next-line",
    "tab-indent", "header-line-collection", "tab-separator",
    "long-strings", "wide-columns", "many-blank-lines", "many-items", "deep-nesting",
];

pub fn feature_names(f: u64) -> Vec<&'static str> {
    FEATURES
        .iter()
        .enumerate()
        .filter(|(i, _)| f & (1 << i) != 0)
        .map(|(_, n)| *n)
        .collect()
}

struct G<'r> {
    o: Vec<u8>,
    r: &'r mut Rng,
    c: Opts,
    left: usize,
    comments: usize,
    feat: u64,
    /// A block scalar was just written; its line must not be continued.
    after_block: bool,
    keyn: usize,
    /// The length of most long strings.
    long: usize,
}

pub fn document(r: &mut Rng, opts: &Opts) -> Doc {
    let mut g = G {
        o: Vec::new(),
        r,
        c: opts.clone(),
        left: opts.nodes,
        comments: 0,
        feat: 0,
        after_block: false,
        keyn: 0,
        long: 0,
    };
    if opts.big == Big::Long {
        g.long = long_len(g.r);
    }
    let (model, sp) = g.root();
    if opts.crlf {
        g.feat |= F_CRLF;
    }
    if opts.big != Big::No {
        g.feat |= 1 << (F_BIG + opts.big as u64 - 1);
    }
    Doc {
        text: g.o,
        model,
        sp,
        comments: g.comments,
        features: g.feat,
    }
}

const LEAD: &[&str] = &[
    "a", "b", "c", "d", "e", "f", "g", "h", "x", "y", "z", "A", "B", "N", "T", "_", "/", "(", "$", "^", "<", "=",
    ";", "é", "私", "🦀", "ß", "\\", "n", "t", "o",
];
const MID: &[&str] = &[
    "a", "b", "c", "d", "e", "1", "2", "0", "9", "_", "/", "(", ")", "$", "^", "<", "=", ";", "é", "私", "🦀",
    "-", "+", ".", "!", "?", "@", "*", "&", "%", "|", ">", "~", "`", "'", "\"", "\\", "#", " ", " ", "  ", ":",
    "[", "]", "{", "}", ",", "\u{a0}", "\u{200b}",
];

/// A string of exactly `n` bytes. Those of equal length differ in few bytes, at
/// any place.
pub fn long(r: &mut Rng, n: usize) -> Vec<u8> {
    if n == COLLIDE || n == COLLIDE + 8 {
        return collide(r, n - COLLIDE);
    }
    let mut v: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvw"[i % 23]).collect();
    for _ in 0..r.range(1, 2) {
        let at = r.below(n);
        v[at] = *r.pick(b"ABCXYZ_789");
    }
    v[0] = b'L';
    v
}

/// The length of strings which [`collide`].
pub const COLLIDE: usize = 892;

/// One of a family of strings with the same XXH3 hash of 128 bits: that of their
/// bytes which follow eight others (as their length may), or, with `o` being 8,
/// that of just their bytes. What differs is added to the same lane of the hash,
/// where it is multiplied by the same number, so that what is taken from one
/// place may be given to the other.
pub fn collide(r: &mut Rng, o: usize) -> Vec<u8> {
    let k: Vec<u8> = (0..3).map(|_| if r.pct(50) { 25 } else { r.below(2) as u8 }).collect();
    collide_with(&k, o)
}

pub fn collide_with(k: &[u8], o: usize) -> Vec<u8> {
    let mut v = vec![b'.'; COLLIDE + o];
    v[0] = b'L';
    for (n, k) in k.iter().enumerate() {
        v[272 + o + n] = b'a' + k;
        v[720 + o + n] = b'z' - k;
    }
    v[275 + o..280 + o].copy_from_slice(b"\xc3\x81:&L");
    v[723 + o..728 + o].copy_from_slice(b"z\xcd\xb4Y1");
    v
}

/// The length of a long string.
pub fn long_len(r: &mut Rng) -> usize {
    if r.below(12) == 0 {
        return *r.pick(&[8193, 16_400, 66_000]);
    }
    *r.pick(&[127, 128, 240, 255, 256, 257, 300, 511, 513, COLLIDE, COLLIDE, COLLIDE + 8, 1000, 1024, 4096, 5000])
}

impl G<'_> {
    /// Columns to put somewhere: `n`, unless columns are what is overdone.
    fn cols(&mut self, n: usize) -> usize {
        if self.c.big == Big::Wide && self.r.pct(20) {
            return *self.r.pick(&[31, 60, 126, 127, 130, 250, 252, 254, 256, 300]);
        }
        n
    }
    /// How much further in something nested is.
    fn step(&mut self) -> usize {
        let n = self.r.range(1, 4);
        self.cols(n)
    }
    fn long(&mut self, p: usize) -> Option<Vec<u8>> {
        if self.c.big != Big::Long || !self.r.pct(p) {
            return None;
        }
        let n = if self.r.pct(70) { self.long } else { long_len(self.r) };
        Some(long(self.r, n))
    }
    fn s(&mut self, s: &str) {
        self.o.extend_from_slice(s.as_bytes());
    }
    fn sp(&mut self, n: usize) {
        self.o.resize(self.o.len() + n, b' ');
    }
    /// Whitespace between two things.
    fn gap(&mut self, n: usize) {
        if !self.c.gaps {
            return self.sp(n);
        }
        for _ in 0..n {
            let c = if self.r.pct(40) { b'\t' } else { b' ' };
            self.o.push(c);
        }
        self.feat |= F_GAPS;
    }
    /// Indent a line.
    fn indent(&mut self, n: usize) {
        if !self.c.tabs {
            return self.sp(n);
        }
        for _ in 0..n {
            let c = if self.r.pct(70) { b'\t' } else { b' ' };
            self.o.push(c);
        }
        if n > 0 {
            self.feat |= F_TABS;
        }
    }
    fn nl(&mut self) {
        if self.c.crlf {
            self.o.push(b'\r');
        }
        self.o.push(b'\n');
    }
    fn col(&self) -> usize {
        let n = self.o.iter().rposition(|b| *b == b'\n').map_or(0, |n| n + 1);
        self.o.len() - n
    }
    fn comment(&mut self) {
        self.feat |= F_COMMENT;
        let n = self.comments;
        self.comments += 1;
        self.s(&format!("# c{n};"));
        for _ in 0..self.r.below(5) {
            let s = *self.r.pick(&[
                " x", ": ", "- ", "[", "{", "'", "\"", "|", "#", "é", "私", " key: value", ",", "}", "]", "%", "\t",
            ]);
            self.s(s);
        }
        if let Some(long) = self.long(20) {
            self.o.extend_from_slice(&long);
        }
        if self.c.bytes && self.r.pct(40) {
            self.feat |= F_BYTES;
            for _ in 0..self.r.range(1, 4) {
                let b = self.r.range(0x80, 0xff) as u8;
                self.o.push(b);
            }
        }
        // Trailing spaces of comments are part of the text as well.
        if self.r.pct(10) {
            self.sp(2);
        }
    }
    /// Finish the current line, possibly with a comment, and possibly follow up
    /// with blank and comment lines. `min` is the least indentation a comment
    /// line may have without being able to be mistaken for something else.
    fn eol(&mut self, fancy: bool) {
        let block = std::mem::take(&mut self.after_block);
        if !block {
            if self.c.comments && self.r.pct(15) {
                let n = self.r.range(1, 3);
                let n = self.cols(n);
                self.gap(n);
                self.comment();
            } else if !self.c.tidy && self.r.pct(8) {
                let n = self.r.range(1, 3);
                let n = self.cols(n);
                self.gap(n);
            }
        }
        self.nl();
        if !fancy {
            return;
        }
        // After a block scalar, anything indented as much as it is part of it
        // until there is a comment which isn't.
        let mut inside = block;
        if self.c.big == Big::Blank && !block && self.r.pct(20) {
            for _ in 0..self.r.range(125, 300) {
                self.nl();
            }
        }
        while self.r.pct(20) {
            if self.c.comments && self.r.pct(60) {
                let n = if inside { 0 } else { self.r.below(6) };
                self.sp(n);
                self.comment();
                self.nl();
                inside = false;
            } else if !inside {
                if !self.c.tidy && self.r.pct(30) {
                    let n = self.r.below(4);
                    self.sp(n);
                }
                self.nl();
            }
        }
    }
    fn root(&mut self) -> (M, Sp) {
        let mut same_line = false;
        if self.c.header && self.r.pct(15) {
            self.feat |= F_HEADER;
            if self.r.pct(40) {
                self.s("%YAML 1.2");
                self.nl();
                if self.r.pct(20) {
                    self.s("%TAG ! tag:example.com,2000:");
                    self.nl();
                }
            }
            if self.c.comments && self.r.pct(30) && !self.o.starts_with(b"%") {
                self.comment();
                self.nl();
            }
            self.s("---");
            if self.r.pct(15) {
                same_line = true;
                self.s(" ");
            } else {
                self.eol(true);
            }
        } else {
            while self.r.pct(25) {
                if self.c.comments && self.r.pct(60) {
                    self.comment();
                }
                self.nl();
            }
        }
        let coll = self.c.collection || self.r.pct(92);
        let (m, mut sp) = if coll && (!same_line || self.c.header_line) && self.r.pct(85) {
            let indent = if same_line {
                self.feat |= F_HEADERLINE;
                self.col()
            } else {
                let indent = if self.r.pct(70) { 0 } else { self.r.below(7) };
                let indent = self.cols(indent);
                self.indent(indent);
                indent
            };
            let start = self.o.len();
            let (m, mut s) = if self.r.pct(65) {
                self.block_map(indent, 0)
            } else {
                self.block_seq(indent, 0)
            };
            s.ind = start;
            (m, s)
        } else {
            if !same_line {
                let n = self.r.below(4);
                self.sp(n);
            }
            if coll {
                self.flow(0, 0)
            } else {
                self.scalar(false)
            }
        };
        sp.prev = sp.span.0;
        sp.ind = sp.span.0;
        let fancy = self.r.pct(50);
        let block = self.after_block;
        if self.c.final_nl || fancy || self.after_block {
            self.eol(fancy);
            if !self.c.final_nl && !self.c.tidy && self.r.pct(40) && !block {
                let n = self.r.below(4);
                self.sp(n);
            }
        } else if self.c.comments && self.r.pct(20) {
            self.s(" ");
            self.comment();
        }
        (m, sp)
    }
    fn take(&mut self) {
        self.left = self.left.saturating_sub(1);
    }
    fn count(&mut self, depth: usize) -> usize {
        if self.c.chain {
            return if self.r.pct(85) { 1 } else { 2 };
        }
        if self.c.big == Big::Items && (depth > 0 || self.r.pct(70)) {
            // Everything left, in the one collection.
            return self.left.clamp(1, 530);
        }
        if depth == 0 {
            let n = self.left.clamp(1, 12);
            return self.r.range(1, n);
        }
        let n = self.left.clamp(1, 5);
        self.r.range(1, n)
    }
    fn block_map(&mut self, indent: usize, depth: usize) -> (M, Sp) {
        self.feat |= F_BMAP;
        let n = self.count(depth);
        let start = self.o.len();
        let mut items = Vec::new();
        let mut sp = Sp::default();
        let mut prev = start;
        for i in 0..n {
            if i > 0 {
                self.eol(true);
                self.indent(indent);
            }
            self.take();
            let ks = self.o.len();
            let key = self.key(false, &items);
            let ke = self.o.len();
            self.s(":");
            let ind = self.o.len();
            let (m, mut s) = self.block_value(indent, true, depth);
            s.key = (ks, ke);
            s.ind = ind;
            s.prev = prev;
            prev = s.span.1;
            items.push((key, m));
            sp.kids.push(s);
        }
        sp.span = (start, prev);
        (M::Map { flow: false, items }, sp)
    }
    fn block_seq(&mut self, indent: usize, depth: usize) -> (M, Sp) {
        self.feat |= F_BSEQ;
        let n = self.count(depth);
        let start = self.o.len();
        let mut items = Vec::new();
        let mut sp = Sp::default();
        let mut prev = start;
        for i in 0..n {
            if i > 0 {
                self.eol(true);
                self.indent(indent);
            }
            self.take();
            self.s("-");
            let ind = self.o.len();
            let (m, mut s) = self.block_value(indent, false, depth);
            s.ind = ind;
            s.prev = prev;
            prev = s.span.1;
            items.push(m);
            sp.kids.push(s);
        }
        sp.span = (start, prev);
        (M::Seq { flow: false, items }, sp)
    }
    /// Break the line, and indent to `col`.
    fn next_line(&mut self, col: usize) {
        self.feat |= F_NEXTLINE;
        self.eol(true);
        self.indent(col);
    }
    /// The value of a mapping entry or sequence item in a block collection at
    /// column `indent`.
    fn block_value(&mut self, indent: usize, in_map: bool, depth: usize) -> (M, Sp) {
        let deep = depth + 1 < self.c.depth && self.left > 0;
        let at = self.o.len();
        let pick = if self.c.chain && self.r.pct(85) { if self.r.pct(96) { 20 } else { 45 } } else { self.r.below(100) };
        match pick {
            0..=7 => {
                self.feat |= F_EMPTY;
                (M::Null { empty: true }, Sp { span: (at, at), ..Sp::default() })
            }
            8..=37 if deep => {
                // Nested block collection.
                let seq = self.r.pct(45);
                if in_map {
                    let col = if seq && self.r.pct(40) {
                        self.feat |= F_SAMEIND;
                        indent
                    } else {
                        indent + self.step()
                    };
                    self.next_line(col);
                    if seq {
                        self.block_seq(col, depth + 1)
                    } else {
                        self.block_map(col, depth + 1)
                    }
                } else if self.r.pct(75) {
                    self.feat |= F_COMPACT;
                    let n = self.r.range(1, 3);
                    let n = self.cols(n);
                    self.sp(n);
                    let col = self.col();
                    if seq {
                        self.block_seq(col, depth + 1)
                    } else {
                        self.block_map(col, depth + 1)
                    }
                } else {
                    let col = indent + self.step();
                    self.next_line(col);
                    if seq {
                        self.block_seq(col, depth + 1)
                    } else {
                        self.block_map(col, depth + 1)
                    }
                }
            }
            38..=50 if deep => {
                if self.r.pct(80) {
                    let n = self.r.range(1, 3);
                    let n = self.cols(n);
                    self.gap(n);
                } else {
                    let col = indent + self.step();
                    self.next_line(col);
                }
                self.flow(indent + 1, depth + 1)
            }
            51..=60 if self.c.blocks => {
                let n = self.r.range(1, 3);
                let n = self.cols(n);
                self.gap(n);
                self.block_scalar(indent)
            }
            _ => {
                if self.r.pct(92) {
                    let n = if self.r.pct(85) { 1 } else { self.r.range(2, 5) };
                    let n = self.cols(n);
                    self.gap(n);
                } else {
                    let col = indent + self.step();
                    self.next_line(col);
                }
                self.scalar(false)
            }
        }
    }
    fn block_scalar(&mut self, parent: usize) -> (M, Sp) {
        let start = self.o.len();
        let literal = self.r.pct(60);
        self.feat |= if literal { F_LITERAL } else { F_FOLDED };
        self.s(if literal { "|" } else { ">" });
        let chomp = self.r.below(3);
        self.s(["", "-", "+"][chomp]);
        let mut value = Vec::new();
        let mut end = self.o.len();
        if self.c.comments && self.r.pct(12) {
            self.s(" ");
            self.comment();
        }
        let n = if self.r.pct(6) { 0 } else { self.r.range(1, 4) };
        let n = if self.c.big == Big::Items && self.r.pct(20) { self.r.range(200, 300) } else { n };
        let col = parent + self.step();
        let mut lines = 0;
        let mut pending = 0;
        for i in 0..n {
            if literal && self.r.pct(12) {
                // A blank line. Blank lines in folded blocks are outside of the
                // dialect.
                self.nl();
                pending += 1;
                if self.c.big == Big::Blank && self.r.pct(50) {
                    for _ in 0..self.r.range(125, 300) {
                        self.nl();
                        pending += 1;
                    }
                }
            }
            self.nl();
            self.sp(col);
            let mut line = Vec::new();
            if literal && i > 0 && self.r.pct(20) {
                line.extend_from_slice(&b"    "[..self.r.range(1, 4)]);
            }
            for j in 0..self.r.range(1, 5) {
                let s = if j == 0 {
                    *self.r.pick(&[
                        "foo", "#!/bin/sh", "- a", "key: value", "'q", "\"", "[x", "é", "&a", "# not", "|", "1", "--x", "\u{a0}",
                        "\u{3000}é",
                    ])
                } else {
                    *self.r.pick(&[" ", "bar", " # x", ": ", "baz", ",", "}", "私", "  ", "\\n", "\t", "\u{a0}", "\u{2003}"])
                };
                line.extend_from_slice(s.as_bytes());
            }
            if let Some(long) = self.long(20) {
                line.extend_from_slice(&long);
            }
            while !literal && matches!(line.last(), Some(b' ' | b'\t')) {
                line.pop();
            }
            if self.c.bytes && self.r.pct(15) {
                self.feat |= F_BYTES;
                line.push(0xfe);
            }
            if literal {
                // Blank lines before the first line count as well.
                let nl = if lines == 0 { pending } else { pending + 1 };
                for _ in 0..nl {
                    value.push(b'\n');
                }
            } else if lines > 0 {
                value.push(b' ');
            }
            pending = 0;
            value.extend_from_slice(&line);
            self.o.extend_from_slice(&line);
            lines += 1;
            end = self.o.len();
        }
        // The line break itself is written by whatever comes next. With CRLF the
        // value only extends to before the `\r`, since that is part of the break.
        let mut blank = 0;
        if self.r.pct(20) {
            blank = self.r.range(1, 2);
            if self.c.big == Big::Blank && self.r.pct(50) {
                blank = self.r.range(125, 300);
            }
            for _ in 0..blank {
                self.nl();
            }
        }
        match chomp {
            0 if lines > 0 => value.push(b'\n'),
            2 => {
                for _ in 0..blank + usize::from(lines > 0) {
                    value.push(b'\n');
                }
            }
            _ => {}
        }
        self.after_block = true;
        (
            M::Str { s: value, loose: true },
            Sp { span: (start, end), ..Sp::default() },
        )
    }
    /// A random bare string.
    pub fn bare(&mut self, flow: bool, key: bool) -> Vec<u8> {
        loop {
            let mut s = Vec::new();
            s.extend_from_slice(self.r.pick(LEAD).as_bytes());
            let mut n = if self.r.pct(10) { self.r.below(40) } else { self.r.below(9) };
            // What can be a key of a mapping on one line is limited in YAML.
            let at = if key && self.c.compat { 0 } else { 20 };
            if let Some(long) = self.long(at) {
                if !(key && flow && long.contains(&b':')) {
                    s = long;
                }
                if self.r.pct(70) {
                    n = 0;
                }
            }
            for _ in 0..n {
                let p = *self.r.pick(MID);
                if flow && matches!(p, "[" | "]" | "{" | "}" | ",") {
                    continue;
                }
                if key && flow && p == ":" {
                    continue;
                }
                s.extend_from_slice(p.as_bytes());
            }
            if self.c.bytes && self.r.pct(15) {
                self.feat |= F_BYTES;
                s.push(self.r.range(0x80, 0xff) as u8);
                s.push(b'z');
            }
            while s.last() == Some(&b' ') {
                s.pop();
            }
            if crate::plain_ok(&s, flow) {
                return s;
            }
        }
    }
    fn text(&mut self, key: bool) -> Vec<u8> {
        let mut s = Vec::new();
        for _ in 0..self.r.below(8) {
            let p = *self.r.pick(&[
                "a", "B", "7", " ", "  ", ": ", " #", "- ", ",", "[", "}", "é", "私", "🦀", "'", "\"", "|", "null", "true",
                "~", "?", "&", "*", "!", "%", "@", "`", "\u{a0}",
            ]);
            s.extend_from_slice(p.as_bytes());
        }
        if let Some(long) = self.long(if key && self.c.compat { 0 } else { 20 }) {
            if self.r.pct(50) {
                s.clear();
            }
            s.extend_from_slice(&long);
        }
        if self.c.bytes && self.r.pct(20) {
            self.feat |= F_BYTES;
            s.push(self.r.range(0x80, 0xff) as u8);
        }
        s
    }
    fn single(&mut self, key: bool) -> Vec<u8> {
        self.feat |= F_SINGLE;
        let v = self.text(key);
        self.o.push(b'\'');
        for &b in &v {
            self.o.push(b);
            if b == b'\'' {
                self.o.push(b);
            }
        }
        self.o.push(b'\'');
        v
    }
    fn double(&mut self, key: bool) -> Vec<u8> {
        self.feat |= F_DOUBLE;
        let mut v = Vec::new();
        self.o.push(b'"');
        for _ in 0..self.r.range(1, 3) {
            for b in self.text(key) {
                if b == b'"' {
                    self.s("\\\"");
                    self.feat |= F_ESCAPE;
                } else {
                    self.o.push(b);
                }
                v.push(b);
            }
            if self.r.pct(50) {
                self.feat |= F_ESCAPE;
                let fixed: &[(&str, &str)] = &[
                    ("\\0", "\0"), ("\\a", "\x07"), ("\\b", "\x08"), ("\\t", "\t"), ("\\n", "\n"), ("\\v", "\x0b"),
                    ("\\f", "\x0c"), ("\\r", "\r"), ("\\e", "\x1b"), ("\\x41", "A"), ("\\x5c", "\\"), ("\\xe9", "é"),
                    ("\\u79c1", "私"), ("\\u00E9", "é"), ("\\x7f", "\x7f"), ("\\u0022", "\""), ("\\uFeFf", "\u{feff}"),
                    ("\\xFf", "ÿ"), ("\\u2028", "\u{2028}"), ("\\/", "/"), ("\\ ", " "), ("\\N", "\u{85}"),
                    ("\\_", "\u{a0}"), ("\\L", "\u{2028}"), ("\\P", "\u{2029}"), ("\\U0001F980", "🦀"),
                ];
                if self.r.pct(70) {
                    let (t, m) = *self.r.pick(fixed);
                    self.s(t);
                    v.extend_from_slice(m.as_bytes());
                } else {
                    let c = loop {
                        let c = match self.r.below(3) {
                            0 => self.r.below(0x100) as u32,
                            1 => self.r.below(0x1_0000) as u32,
                            _ => self.r.below(0x11_0000) as u32,
                        };
                        if let Some(c) = char::from_u32(c) {
                            break c;
                        }
                    };
                    let n = u32::from(c);
                    let t = if n < 0x100 && self.r.pct(60) {
                        format!("\\x{n:02x}")
                    } else if n < 0x1_0000 && self.r.pct(80) {
                        if self.r.pct(50) { format!("\\u{n:04x}") } else { format!("\\u{n:04X}") }
                    } else {
                        format!("\\U{n:08x}")
                    };
                    self.s(&t);
                    v.extend_from_slice(c.encode_utf8(&mut [0; 4]).as_bytes());
                }
            }
        }
        self.o.push(b'"');
        v
    }
    fn key(&mut self, flow: bool, items: &[(Vec<u8>, M)]) -> Vec<u8> {
        let mark = self.o.len();
        loop {
            if self.c.dups && !items.is_empty() && self.r.pct(20) {
                let k = self.r.pick(items).0.clone();
                if crate::plain_ok(&k, true) && !k.contains(&b':') {
                    self.o.extend_from_slice(&k);
                    return k;
                }
            }
            let k = match self.r.below(10) {
                0 => {
                    self.feat |= F_QKEY;
                    self.single(true)
                }
                1 => {
                    self.feat |= F_QKEY;
                    self.double(true)
                }
                2..=6 => {
                    let n = self.keyn;
                    self.keyn += 1;
                    let mut k = format!("k{n}").into_bytes();
                    if let Some(long) = self.long(10).filter(|l| !l.contains(&b':')) {
                        // YAML limits how long a key can be.
                        let n = if self.c.compat { long.len().min(250) } else { long.len() };
                        k.extend_from_slice(&long[..n]);
                    }
                    self.o.extend_from_slice(&k);
                    k
                }
                7 => {
                    // Keys which look like other scalars.
                    let k = self.r.pick(&["x-y", "null-ish", "a.b", "v1", "T", "on", "yes"]).as_bytes().to_vec();
                    self.o.extend_from_slice(&k);
                    k
                }
                _ => {
                    let k = self.bare(flow, true);
                    self.o.extend_from_slice(&k);
                    k
                }
            };
            if self.c.dups || items.iter().all(|(o, _)| *o != k) {
                return k;
            }
            self.o.truncate(mark);
        }
    }
    fn scalar(&mut self, flow: bool) -> (M, Sp) {
        let start = self.o.len();
        let m = match self.r.below(100) {
            0..=5 => {
                let (s, m) = *self.r.pick(&[("~", 0), ("null", 0), ("Null", 0), ("NULL", 0)]);
                let _: i32 = m;
                self.s(s);
                M::null()
            }
            6..=15 => {
                let s = *self.r.pick(&["true", "false", "True", "False", "TRUE", "FALSE"]);
                self.s(s);
                M::Bool(s.eq_ignore_ascii_case("true"))
            }
            16..=40 => {
                self.feat |= F_NUM;
                let n = number(self.r);
                self.s(&n);
                M::Num(n)
            }
            41..=70 => {
                self.feat |= F_BARE;
                let s = self.bare(flow, false);
                self.o.extend_from_slice(&s);
                M::Str { s, loose: false }
            }
            71..=85 => {
                let s = self.single(false);
                M::Str { s, loose: false }
            }
            _ => {
                let s = self.double(false);
                M::Str { s, loose: false }
            }
        };
        (m, Sp { span: (start, self.o.len()), ..Sp::default() })
    }
    /// Whitespace inside of a flow collection.
    fn fws(&mut self, min: usize, multi: bool, required: bool) {
        match self.r.below(10) {
            0 if multi => {
                self.feat |= F_MULTIFLOW;
                if self.c.comments && self.r.pct(40) {
                    self.s(" ");
                    self.comment();
                } else if self.r.pct(30) {
                    self.gap(1);
                }
                self.nl();
                let n = self.r.below(4);
                let n = min + self.cols(n);
                self.gap(n);
            }
            1..=2 => {
                let n = self.r.range(1, 3);
                let n = self.cols(n);
                self.gap(n);
            }
            _ if required => self.gap(1),
            _ => {}
        }
    }
    fn flow(&mut self, min: usize, depth: usize) -> (M, Sp) {
        let map = self.r.pct(50);
        self.feat |= if map { F_FMAP } else { F_FSEQ };
        let multi = self.r.pct(30);
        let start = self.o.len();
        self.s(if map { "{" } else { "[" });
        let n = if self.r.pct(12) { 0 } else { self.count(depth + 1) };
        let mut sp = Sp::default();
        let mut items = Vec::new();
        let mut prev = self.o.len();
        let mut trailing = false;
        for i in 0..n {
            self.take();
            let ind0 = self.o.len();
            let required = i > 0 && self.r.pct(85);
            self.fws(min, multi, required);
            let ks = self.o.len();
            let (mut key, mut ke) = (Vec::new(), ks);
            let mut ind = ind0;
            let mut empty = false;
            if map {
                key = self.key(true, &items);
                ke = self.o.len();
                self.s(":");
                ind = self.o.len();
                empty = self.r.pct(5);
                self.fws(min, multi, true);
            }
            let deep = depth + 1 < self.c.depth && self.left > 0;
            let (m, mut s) = if empty {
                self.feat |= F_EMPTY;
                (M::Null { empty: true }, Sp { span: (ind, ind), ..Sp::default() })
            } else if deep && self.r.pct(if self.c.chain { 85 } else { 25 }) {
                self.flow(min, depth + 1)
            } else {
                self.scalar(true)
            };
            s.key = (ks, ke);
            s.ind = ind;
            s.prev = prev;
            prev = s.span.1;
            items.push((key, m));
            sp.kids.push(s);
            if !empty {
                self.fws(min, multi, false);
            }
            trailing = i + 1 == n && self.r.pct(15);
            if i + 1 < n || trailing {
                self.s(",");
            }
        }
        if n == 0 || trailing {
            self.fws(min, multi, false);
        }
        if trailing {
            self.feat |= F_TRAILING;
        }
        self.s(if map { "}" } else { "]" });
        sp.span = (start, self.o.len());
        let m = if map {
            M::Map { flow: true, items }
        } else {
            M::Seq { flow: true, items: items.into_iter().map(|(_, m)| m).collect() }
        };
        (m, sp)
    }
}

/// Close to half way between two floats, so that which of them is closest is
/// decided by the last digit.
fn halfway(r: &mut Rng) -> String {
    let mut s = if r.pct(60) {
        // Single precision.
        let a = f32::from_bits((r.range(100, 150) << 23 | r.below(1 << 23)) as u32);
        let b = f32::from_bits(a.to_bits() + 1);
        let mid = (f64::from(a) + f64::from(b)) / 2.0;
        format!("{mid:.80}")
    } else {
        // Double precision.
        let bits = r.range(1, 40);
        let n = (1u128 << 53 | u128::from(r.u64() >> 11)) << bits | 1u128 << (bits - 1);
        format!("{n}.0")
    };
    while s.ends_with('0') && !s.ends_with(".0") {
        s.pop();
    }
    match r.below(4) {
        0 => {}
        // A bit more than half.
        1 => s.push_str(&format!("{}1", "0".repeat(r.below(20)))),
        2 => s.push_str(&format!("{}7", "0".repeat(r.below(400)))),
        // A bit less than half.
        _ => {
            let mut b = s.into_bytes();
            for at in (0..b.len()).rev() {
                match b[at] {
                    b'0' => b[at] = b'9',
                    b'.' => {}
                    _ => {
                        b[at] -= 1;
                        break;
                    }
                }
            }
            s = String::from_utf8(b).unwrap();
            s.push_str(&"9".repeat(r.below(20)));
        }
    }
    if s.len() > 1 && s.starts_with('0') && !s.starts_with("0.") {
        s.remove(0);
    }
    s
}

/// The source text of a random number, inside of the common subset of what this
/// crate and YAML agree is a number.
pub fn number(r: &mut Rng) -> String {
    let neg = r.pct(30);
    let digits = |r: &mut Rng, n: usize| {
        let mut s = String::new();
        for i in 0..n {
            let d = if i == 0 && n > 1 { r.range(1, 9) } else { r.below(10) };
            s.push((b'0' + d as u8) as char);
        }
        s
    };
    let mut s = String::new();
    if neg {
        s.push('-');
    }
    match r.below(100) {
        0..=1 => s.push_str(&halfway(r)),
        2..=34 => {
            let n = r.range(1, 4);
            s.push_str(&digits(r, n));
        }
        35..=54 => {
            // Around the limits of the integer types.
            let bits = *r.pick(&[7u32, 8, 15, 16, 31, 32, 53, 63, 64, 127]);
            let v = (1u128 << bits).wrapping_add(r.below(5) as u128).wrapping_sub(2);
            s.push_str(&v.to_string());
        }
        55..=59 => {
            let n = r.range(15, 40);
            s.push_str(&digits(r, n));
        }
        60..=62 => s.push_str(&u128::MAX.to_string()),
        63..=84 => {
            let a = r.range(1, 6);
            let b = r.range(1, 6);
            s.push_str(&digits(r, a));
            s.push('.');
            for _ in 0..b {
                s.push((b'0' + r.below(10) as u8) as char);
            }
        }
        _ => {
            let a = r.range(1, 3);
            s.push_str(&digits(r, a));
            if r.pct(60) {
                s.push('.');
                let b = r.range(1, 4);
                for _ in 0..b {
                    s.push((b'0' + r.below(10) as u8) as char);
                }
            }
            s.push(*r.pick(&['e', 'E']));
            s.push_str(r.pick(&["", "+", "-"]));
            let e = r.range(1, 2);
            s.push_str(&digits(r, e));
        }
    }
    s
}
