// The drawing of an automaton on a canvas
use dandy_draw::pos2::Pos2;
use dandy_draw::{DrawOptions, Drawer};
type C = [u8; 3];
type P = (i32, i32);
/// in eighths, which all coordinates here are multiples of
fn e(x: f32) -> i32 {
    (x * 8.0) as i32
}
fn p(x: Pos2) -> P {
    (e(x.x), e(x.y))
}
/// everything that was drawn
struct Rec {
    started: usize,
    finished: usize,
    color: C,
    circles: Vec<(P, i32, i32, C)>,
    lines: Vec<(P, P, i32, C)>,
    texts: Vec<(P, String, C)>,
    late: bool,
}
impl Rec {
    fn at(&mut self) {
        self.late |= self.started != 1 || self.finished != 0;
    }
}
impl Drawer for Rec {
    fn start_drawing(&mut self) {
        self.started += 1
    }
    fn finish_drawing(&mut self) {
        self.finished += 1
    }
    fn draw_circle(&mut self, pos: Pos2, radius: f32, thickness: f32) {
        self.at();
        self.circles.push((p(pos), e(radius), e(thickness), self.color))
    }
    fn draw_centered_text(&mut self, pos: Pos2, text: &str) {
        self.at();
        self.texts.push((p(pos), text.into(), self.color))
    }
    fn draw_rect(&mut self, _: Pos2, _: Pos2) {
        self.late = true;
    }
    fn draw_line(&mut self, from: Pos2, to: Pos2, thickness: f32) {
        self.at();
        self.lines.push((p(from), p(to), e(thickness), self.color))
    }
    fn set_color(&mut self, c: C) {
        self.color = c;
    }
}
/// the options, in eighths
#[derive(Clone)]
struct O {
    f: [i32; 19],
    colors: [C; 3],
    ends: bool,
    all: bool,
}
impl O {
    fn default() -> Self {
        O {
            f: [8, 8, 0, 0, 160, 240, 16, 200, 16, 400, 120, 24, 40, 24, 120, 120, 200, 120, 80],
            colors: [[255, 255, 255], [150, 255, 255], [0, 255, 255]],
            ends: true,
            all: false,
        }
    }
    fn other(ends: bool) -> Self {
        O {
            f: [16, 24, 80, 56, 240, 320, 40, 280, 48, 440, 96, 56, 64, 32, 80, 160, 280, 136, 112],
            colors: [[1, 2, 3], [4, 5, 6], [7, 8, 9]],
            ends,
            all: true,
        }
    }
    fn build(&self) -> DrawOptions {
        let o = DrawOptions::default();
        if !self.all {
            return o;
        }
        let f = |i: usize| self.f[i] as f32 / 8.0;
        o.with_x_scale(f(0))
            .with_y_scale(f(1))
            .with_x_offset(f(2))
            .with_y_offset(f(3))
            .with_center_line_padding(f(4))
            .with_circle_radius(f(5))
            .with_circle_width(f(6))
            .with_accepting_circle_radius(f(7))
            .with_accepting_circle_width(f(8))
            .with_init_arrow_length(f(9))
            .with_init_arrow_arms_length(f(10))
            .with_init_arrow_width(f(11))
            .with_trans_arrow_arms_length(f(12))
            .with_trans_line_width(f(13))
            .with_from_line_offset(f(14))
            .with_to_line_offset(f(15))
            .with_floor_height(f(16))
            .with_text_margin(f(17))
            .with_line_circle_margin(f(18))
            .with_end_arrow(self.ends)
            .with_middle_arrow(true)
            .with_text_color(self.colors[0])
            .with_circle_color(self.colors[1])
            .with_line_color(self.colors[2])
    }
}
struct Pic<const N: usize, const K: usize> {
    has: [[[bool; K]; N]; N],
    acc: [bool; N],
    init: usize,
}
fn judge<const N: usize, const K: usize>(q: &Pic<N, K>, sy: [&str; K], o: &O, r: Rec) {
    check(r.started == 1 && r.finished == 1 && !r.late, "drawing is begun once, first, and finished once, last");
    let [sx, sy_, ox, oy, pad, rad, cw, arad, acw, ial, iaa, iaw, taa, tlw, fo, to, fl, tm, lcm] = o.f;
    let at = |x: i32, y: i32| ((x + ox) * sx / 8, (y + oy) * sy_ / 8);
    let xp = |i: usize| ial + pad + rad + (rad * 2 + pad) * i as i32;
    // the level of every arrow: where the line between the two states is, with a head in its middle
    let mut arrows = 0;
    let mut need = [[false; N]; N];
    for i in 0..N {
        for j in 0..N {
            for c in 0..K {
                need[i][j] |= q.has[i][j][c];
            }
            arrows += need[i][j] as usize;
        }
    }
    // the number of levels, as the height of the states tells
    check(r.circles.len() >= N && r.texts.len() == N + arrows, "a circle and a name for every state, a label for every arrow");
    let mut levels = N * N + 1;
    for v in 1..N * N + 1 {
        if r.circles[0].0 == at(xp(0), (v as i32 + 1) * fl + lcm + rad) {
            levels = v;
        }
    }
    check(levels <= arrows, "the height of the picture is that of its levels");
    let base = (levels as i32 + 1) * fl;
    let mut want: Vec<(P, P, i32)> = Vec::with_capacity(8 + 7 * N * N);
    // the states
    let cy = base + lcm + rad;
    let mut n = 0;
    for i in 0..N {
        let c = at(xp(i), cy);
        check(r.circles[n] == (c, rad * sx / 8, cw, o.colors[1]), "the circle of a state");
        n += 1;
        if q.acc[i] {
            check(n < r.circles.len() && r.circles[n] == (c, arad * sx / 8, acw, o.colors[1]), "a second circle of an accepting state");
            n += 1;
        }
        let mut named = false;
        for t in 0..N * N + N {
            if t < N + arrows {
                named |= r.texts[t].0 == c && r.texts[t].1 == NAMES[i] && r.texts[t].2 == o.colors[0];
            }
        }
        check(named, "the name in the circle");
        if i == q.init {
            let s = cy + rad + pad;
            want.push((at(xp(i), s), at(xp(i), s + ial), iaw));
            want.push((at(xp(i), s), at(xp(i) + iaa, s + iaa), iaw));
            want.push((at(xp(i), s), at(xp(i) - iaa, s + iaa), iaw));
            if i == 0 {
                want.push((at(0, cy), at(ial, cy), iaw));
                want.push((at(ial, cy), at(ial - iaa, cy - iaa), iaw));
                want.push((at(ial, cy), at(ial - iaa, cy + iaa), iaw));
            }
        }
    }
    check(n == r.circles.len(), "no other circles");
    // the arrows
    let drawn = |f: P, t: P| {
        let mut d = false;
        for l in &r.lines {
            d |= (l.0 == f && l.1 == t) || (l.0 == t && l.1 == f);
        }
        d
    };
    let mut level = [[0; N]; N];
    for i in 0..N {
        for j in 0..N {
            if need[i][j] {
                let (a, b) = (xp(i.min(j)) + fo, xp(i.max(j)) - to);
                let mid = (a + b) / 2;
                let mul = if i > j { 1 } else { -1 };
                let tip = mid - mul * taa / 2;
                let mut found = 0;
                for v in 0..N * N {
                    if v < levels {
                        let h = fl * (levels - v) as i32;
                        if drawn(at(a, h), at(b, h)) && drawn(at(tip, h), at(tip + mul * taa, h + taa)) {
                            found += 1;
                            level[i][j] = v;
                        }
                    }
                }
                check(found == 1, "one arrow for all the transitions from one state to another");
                let h = fl * (levels - level[i][j]) as i32;
                want.push((at(a, base), at(a, h), tlw));
                want.push((at(b, base), at(b, h), tlw));
                want.push((at(a, h), at(b, h), tlw));
                want.push((at(tip, h), at(tip + mul * taa, h + taa), tlw));
                want.push((at(tip, h), at(tip + mul * taa, h - taa), tlw));
                if o.ends {
                    // the head at the state it leads to
                    let x = if i < j { b } else { a };
                    want.push((at(x, base), at(x - taa, base - taa), tlw));
                    want.push((at(x, base), at(x + taa, base - taa), tlw));
                }
                let mut label = String::with_capacity(24);
                let mut first = true;
                for c in 0..K {
                    if q.has[i][j][c] {
                        if !first {
                            label.push_str(", ");
                        }
                        first = false;
                        label.push_str(sy[c]);
                    }
                }
                let mut labelled = false;
                for t in 0..N * N + N {
                    if t < N + arrows {
                        labelled |= r.texts[t].0 == at(mid, h - tm) && r.texts[t].1 == label && r.texts[t].2 == o.colors[0];
                    }
                }
                check(labelled, "the symbols of an arrow, in the order of the alphabet");
            }
        }
    }
    // the arrows of a level do not overlap
    for i in 0..N {
        for j in 0..N {
            for k in 0..N {
                for l in 0..N {
                    if (i, j) != (k, l) && need[i][j] && need[k][l] && level[i][j] == level[k][l] {
                        let (a, b, c, d) = (i.min(j), i.max(j), k.min(l), k.max(l));
                        check(b <= c && (b < c || a < b || c < d) || d <= a, "arrows of a level do not overlap");
                    }
                }
            }
        }
    }
    for w in &want {
        let mut d = false;
        for l in &r.lines {
            d |= ((l.0 == w.0 && l.1 == w.1) || (l.0 == w.1 && l.1 == w.0)) && l.2 == w.2 && l.3 == o.colors[2];
        }
        check(d, "every line of an arrow");
    }
    check(r.lines.len() == want.len(), "no more lines than those of the arrows");
    for l in &r.lines {
        let mut d = false;
        for w in &want {
            d |= (l.0 == w.0 && l.1 == w.1) || (l.0 == w.1 && l.1 == w.0);
        }
        check(d, "no line but those of the arrows");
    }
    observe(levels);
    cover(levels > 1, "more than one level");
}
fn options(k: usize) -> O {
    match k {
        0 => O::default(),
        1 => O::other(true),
        _ => O::other(false),
    }
}
fn rec(n: usize) -> Rec {
    Rec {
        started: 0,
        finished: 0,
        color: [0; 3],
        circles: Vec::with_capacity(2 * n),
        lines: Vec::with_capacity(8 + 7 * n * n),
        texts: Vec::with_capacity(n + n * n),
        late: false,
    }
}
const SY: [&str; 4] = ["a", "long", "é", "c"];
fn dfa<const N: usize, const K: usize>() {
    let y = slice(3 * N);
    let o = options(y % 3);
    let sy: [&str; K] = std::array::from_fn(|c| SY[c]);
    let d = D::<N, K>::any(y / 3);
    hash_order(8);
    let mut q = Pic { has: [[[false; K]; N]; N], acc: d.acc, init: d.init };
    for i in 0..N {
        for c in 0..K {
            for j in 0..N {
                q.has[i][j][c] = d.t[i][c] == j;
            }
        }
    }
    let x = d.build(&sy);
    let mut r = rec(N);
    dandy_draw::draw_dfa_with_opts(&x, &mut r, o.build());
    judge(&q, sy, &o, r);
}
fn nfa<const N: usize, const K: usize, const K1: usize>() {
    let y = slice(3 * N);
    let o = options(y % 3);
    let a = A::<N, K>::any(y / 3, true);
    hash_order(8);
    let mut q = Pic { has: [[[false; K1]; N]; N], acc: a.acc, init: a.init };
    let mut some = false;
    for i in 0..N {
        for j in 0..N {
            for c in 0..K {
                q.has[i][j][c] = a.t[i][c][j];
                some |= a.t[i][c][j];
            }
            q.has[i][j][K] = a.eps[i][j];
            some |= a.eps[i][j];
        }
    }
    assume(some);
    let all: [&str; K1] = std::array::from_fn(|c| if c < K { SY[c] } else { "ε" });
    let x = a.build(&SY[..K]);
    let mut r = rec(N);
    dandy_draw::draw_nfa_with_opts(&x, &mut r, o.build());
    judge(&q, all, &o, r);
}
entries! {
    vx_dfa_21 = dfa::<2, 1>;
    vx_dfa_22 = dfa::<2, 2>;
    vx_dfa_31 = dfa::<3, 1>;
    vx_dfa_32 = dfa::<3, 2>;
    vx_dfa_41 = dfa::<4, 1>;
    vx_dfa_42 = dfa::<4, 2>;
    vx_dfa_33 = dfa::<3, 3>;
    vx_nfa_31 = nfa::<3, 1, 2>;
    vx_nfa_32 = nfa::<3, 2, 3>;
    vx_nfa_21 = nfa::<2, 1, 2>;
    vx_nfa_22 = nfa::<2, 2, 3>;
}
