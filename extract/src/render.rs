//! Byte-range edits on a source text.

#[derive(Clone, Debug)]
pub enum Piece {
    Text(String),
    /// A range of the source, rendered with the edits inside it
    Src(usize, usize),
}

#[derive(Clone, Debug)]
enum Edit {
    Insert { at: usize, prio: i32, text: String, seq: usize },
    Replace { s: usize, e: usize, pieces: Vec<Piece> },
}

#[derive(Default, Clone)]
pub struct Edits {
    v: Vec<Edit>,
    done: std::cell::RefCell<Vec<bool>>,
}

impl Edits {
    pub fn new() -> Edits { Edits::default() }
    pub fn insert(&mut self, at: usize, prio: i32, text: String) {
        let seq = self.v.len();
        self.v.push(Edit::Insert { at, prio, text, seq });
    }
    pub fn replace(&mut self, s: usize, e: usize, text: String) {
        self.v.push(Edit::Replace { s, e, pieces: vec![Piece::Text(text)] });
    }
    pub fn replace_p(&mut self, s: usize, e: usize, pieces: Vec<Piece>) {
        self.v.push(Edit::Replace { s, e, pieces });
    }
    pub fn absorb(&mut self, other: Edits) {
        self.v.extend(other.v);
    }
    /// Renders everything; returns the text and a map from source offsets to
    /// output offsets (exact for offsets outside replaced ranges).
    pub fn render_all(&self, src: &str) -> (String, impl Fn(usize) -> usize) {
        let mut out = String::new();
        let mut marks: Vec<(usize, usize)> = vec![];
        *self.done.borrow_mut() = vec![false; self.v.len()];
        self.render(src, 0, src.len(), None, &mut out, &mut marks);
        marks.push((src.len(), out.len()));
        let map = move |p: usize| {
            // last mark at or before p
            let i = marks.partition_point(|m| m.0 <= p);
            if i == 0 { return p; }
            let m = marks[i - 1];
            m.1 + (p - m.0)
        };
        (out, map)
    }
    fn render(&self, src: &str, a: usize, b: usize, skip: Option<usize>, out: &mut String, marks: &mut Vec<(usize, usize)>) {
        // candidates inside [a, b]
        let mut c: Vec<(usize, i64, i64, usize)> = vec![]; // (pos, class, prio/seq, index)
        for (i, e) in self.v.iter().enumerate() {
            if Some(i) == skip { continue; }
            match e {
                Edit::Insert { at, prio, seq, .. } if *at >= a && *at <= b => {
                    if self.done.borrow()[i] { continue; }
                    // statement level insertions stay outside of a replaced expression
                    if *prio >= 100 && skip.is_some() && (*at == a || *at == b) { continue; }
                    if *prio < 100 && self.inside_replace(*at, a, b, skip) { continue; }
                    c.push((*at, 0, (*prio as i64) * 1_000_000 + *seq as i64, i));
                }
                Edit::Replace { s, e: en, .. } if *s >= a && *en <= b => {
                    // larger first
                    c.push((*s, 1, -(*en as i64), i));
                }
                _ => {}
            }
        }
        c.sort();
        let mut pos = a;
        for (_, _, _, i) in c {
            match &self.v[i] {
                Edit::Insert { at, text, .. } => {
                    if *at < pos { continue; }
                    self.done.borrow_mut()[i] = true;
                    self.copy(src, pos, *at, out, marks);
                    out.push_str(text);
                    pos = *at;
                }
                Edit::Replace { s, e, pieces } => {
                    if *s < pos { continue; }
                    // an identical range as the one being rendered was excluded by `skip`
                    self.copy(src, pos, *s, out, marks);
                    for p in pieces {
                        match p {
                            Piece::Text(t) => out.push_str(t),
                            Piece::Src(x, y) => self.render_inner(src, *x, *y, i, out, marks),
                        }
                    }
                    pos = *e;
                }
            }
        }
        self.copy(src, pos, b, out, marks);
    }
    /// An expression level insertion at the start of a replacement that begins
    /// with a piece of the source belongs to that piece.
    fn inside_replace(&self, at: usize, a: usize, b: usize, skip: Option<usize>) -> bool {
        self.v.iter().enumerate().any(|(i, e)| match e {
            Edit::Replace { s, e, pieces } if Some(i) != skip && *s >= a && *e <= b && *s <= at && at <= *e && !(*s == a && *e == b && skip.is_some() && skip.unwrap() < i && false) =>
                pieces.iter().any(|p| matches!(p, Piece::Src(x, y) if (*x == at && *s == at) || (*y == at && *e == at))),
            _ => false,
        })
    }
    fn render_inner(&self, src: &str, x: usize, y: usize, me: usize, out: &mut String, marks: &mut Vec<(usize, usize)>) {
        // inserts exactly at the borders of a Src piece belong to the outside
        // unless they were made for the inner expression; keep them inside.
        self.render(src, x, y, Some(me), out, marks);
    }
    fn copy(&self, src: &str, a: usize, b: usize, out: &mut String, marks: &mut Vec<(usize, usize)>) {
        if b > a {
            marks.push((a, out.len()));
            out.push_str(&src[a..b]);
        }
    }
}
