//! C25 (line string builder), C26 (arc length parameterization), C27 (curves, boundaries, points)
use crate::core::*;
use crate::crs::{AnyCrs, crs};
use geokit::geometry::Geometry;
use geokit::geometry::GeometryType;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveInterpolation, CurveSegment, ParameterizedCurve};
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::units::length::M;
use std::any::Any;

/// 1 projected 2D, 2 projected 3D, 3 geocentric, 4 geographic 2D, 5 geographic 3D, 6 projected 2D in US feet
fn crs_of(kind: i32) -> &'static AnyCrs {
    let (a, f) = (6_378_137., 298.257_223_563);
    let utm = [4., 0., 31., 0., 0., 0.];
    let mk = |ty: f64, ax: f64, u: f64| {
        let mut d = vec![ty, a, f, 0., ax, u, 0., 0., 0., 0., 0.];
        d.extend(if ty == 3. { utm } else { [0.; 6] });
        Box::leak(Box::new(crs(&d))) as &'static AnyCrs
    };
    match kind {
        1 => mk(3., 2., 0.),
        2 => mk(3., 1., 0.),
        3 => mk(1., 1., 0.),
        4 => mk(2., 3., 1.),
        5 => mk(2., 1., 1.),
        _ => mk(3., 2., 2.),
    }
}
pub struct Lines {
    which: u32,
    all: Vec<&'static AnyCrs>,
    crs: &'static AnyCrs,
    last: Vec<f64>,
    b: Option<LineStringBuilder<'static>>,
    line: Option<LineString>,
    /// a finished line put aside
    kept: Option<LineString>,
    cb: Option<CurveBuilder<'static>>,
    curve: Option<Curve>,
    /// distances between the vertices of the last line and of the last curve
    lens: [Vec<f64>; 2],
}
fn p3(p: &[f64]) -> [f64; 3] {
    let mut r = [0.; 3];
    r[..p.len()].copy_from_slice(p);
    r
}
fn bl(x: bool) -> f64 {
    x as i32 as f64
}
/// why a construction was refused: 1 dimension, 2 disconnected, 3 anything else
fn code(e: &str) -> f64 {
    match e {
        "Invalid coordinate dimension" => 1.,
        "Disconnected segment" => 2.,
        _ => 3.,
    }
}
impl Lines {
    pub fn new(which: u32) -> Self {
        let all: Vec<_> = (1..=6).map(crs_of).collect();
        Lines { which, crs: all[0], all, last: vec![], b: None, line: None, kept: None, cb: None, curve: None, lens: [vec![], vec![]] }
    }
    /// distances along the last line (0) or curve (1) at which its vertices lie
    fn stations(&self, k: usize) -> Vec<f64> {
        let mut s = 0.;
        self.lens[k].iter().map(|d| { s += d; s }).collect()
    }
    fn dist(&self, p: &[f64], q: &[f64]) -> [f64; 2] {
        let c = self.crs.as_dyn();
        if p.len() != c.dim() || q.len() != c.dim() {
            return [2., 0.];
        }
        match c.dist(p, q) {
            Ok(d) => [0., d.m()],
            Err(_) => [1., 0.],
        }
    }
    fn observe(l: &LineString, c: &AnyCrs) -> Vec<f64> {
        let mut r = vec![l.coord_dim() as f64];
        r.extend(p3(l.start()));
        r.extend(p3(l.end()));
        r.push(l.length(c.as_dyn()).m());
        let bd = l.curve_boundary();
        r.extend(p3(&bd.start));
        r.extend(p3(&bd.end));
        r.push(bl(matches!(l.interpolation(), CurveInterpolation::Linear)));
        r.push(bl(*l == l.clone() && bd.start.len() == l.coord_dim() && bd.end.len() == l.coord_dim()));
        r
    }
}
impl Prop for Lines {
    fn exec(&mut self, op: u32, i: &[f64]) -> Vec<f64> {
        let c = self.crs;
        match op {
            1 => {
                let k = self.all[i[0] as usize - 1];
                self.crs = k;
                let (f, t) = (i[2..2 + i[1] as usize].to_vec(), i[6..6 + i[5] as usize].to_vec());
                let d = self.dist(&f, &t);
                self.b = None;
                match LineStringBuilder::with_line(k.as_dyn(), &f[..], &t[..]) {
                    Ok(x) => {
                        self.b = Some(x);
                        self.last = t;
                        self.lens[0] = vec![d[1]];
                        vec![OK, 0., d[0], d[1]]
                    }
                    Err(e) => vec![ERR, code(e), d[0], d[1]],
                }
            }
            // 2: extend the builder; 5: extend a copy of it and forget the copy
            2 | 5 => {
                let p = i[1..1 + i[0] as usize].to_vec();
                let d = self.dist(&self.last, &p);
                let x = if op == 2 { self.b.take().unwrap() } else { self.b.clone().unwrap() };
                match x.line_to(&p[..]) {
                    Ok(x) => {
                        if op == 2 {
                            self.b = Some(x);
                            self.last = p;
                            self.lens[0].push(d[1]);
                        }
                        vec![OK, 0., d[0], d[1]]
                    }
                    Err(e) => vec![ERR, code(e), d[0], d[1]],
                }
            }
            // 3: close, 4: build
            3 | 4 => {
                let x = self.b.take().unwrap();
                let start = x.clone().build().start().to_vec();
                let d = self.dist(&self.last, &start);
                let l = if op == 3 { x.close() } else { Ok(x.build()) };
                match l {
                    Ok(l) => {
                        let mut r = vec![OK, 0., d[0], d[1]];
                        r.extend(Self::observe(&l, c));
                        self.line = Some(l);
                        if op == 3 {
                            self.lens[0].push(d[1]);
                        }
                        r
                    }
                    Err(e) => vec![ERR, code(e), d[0], d[1]],
                }
            }
            // 6: put the finished line aside, 7: is the finished line the one put aside?
            6 => {
                self.kept = self.line.clone();
                vec![OK, 0.]
            }
            7 => {
                let (x, y) = (self.line.as_ref().unwrap(), self.kept.as_ref().unwrap());
                vec![OK, 0., bl(x == y), bl(y == x)]
            }
            // 10: position at arc length s on the line string, 14: on the curve
            10 => {
                let p = self.line.as_ref().unwrap().param(c.as_dyn(), i[0] * M);
                let q = p3(&p);
                vec![OK, p.len() as f64, q[0], q[1], q[2]]
            }
            14 => {
                let p = self.curve.as_ref().unwrap().param(c.as_dyn(), i[0] * M);
                let q = p3(&p);
                vec![OK, p.len() as f64, q[0], q[1], q[2]]
            }
            11 => {
                let k = self.all[i[0] as usize - 1];
                self.cb = None;
                self.lens[1] = self.lens[0].clone();
                match CurveBuilder::with_seg(k.as_dyn(), self.line.clone().unwrap()) {
                    Ok(x) => {
                        self.cb = Some(x);
                        vec![OK, 0.]
                    }
                    Err(e) => vec![ERR, code(e)],
                }
            }
            12 | 15 => {
                let x = if op == 12 { self.cb.take().unwrap() } else { self.cb.clone().unwrap() };
                match x.append_segment(self.line.clone().unwrap()) {
                    Ok(x) => {
                        if op == 12 {
                            self.cb = Some(x);
                            let l = self.lens[0].clone();
                            self.lens[1].extend(l);
                        }
                        vec![OK, 0.]
                    }
                    Err(e) => vec![ERR, code(e)],
                }
            }
            13 => {
                let k = self.cb.take().unwrap().build();
                let mut r = vec![OK, 0., k.coord_dim() as f64];
                r.extend(p3(k.start()));
                r.extend(p3(k.end()));
                r.push(k.length(c.as_dyn()).m());
                r.push(bl(k.is_cycle()));
                match k.boundary() {
                    None => r.extend([0.; 9]),
                    Some(bd) => {
                        let any: Box<dyn Any> = bd;
                        match any.downcast::<CurveBoundary>() {
                            Ok(bd) => {
                                r.push(1.);
                                r.extend(p3(&bd.start));
                                r.extend(p3(&bd.end));
                                r.push(bl(bd.is_cycle() && bd.boundary().is_none()));
                                r.push(match bd.geometry_type() {
                                    GeometryType::Point(n) => n as f64,
                                    _ => -1.,
                                });
                            }
                            Err(_) => r.extend([2., 0., 0., 0., 0., 0., 0., 0., 0.]),
                        }
                    }
                }
                r.push(match k.geometry_type() {
                    GeometryType::Curve(n) => n as f64,
                    _ => -1.,
                });
                r.push(bl(k.is_simple()));
                self.curve = Some(k);
                r
            }
            // points: copy of a position
            20 => {
                let p = &i[1..1 + i[0] as usize];
                let mut x = Point::new(p);
                let same = x == Point::new(p) && x.is_cycle() && x.boundary().is_none() && x.is_simple() && AsRef::<[f64]>::as_ref(&x) == p;
                let n = match x.geometry_type() {
                    GeometryType::Point(n) => n as f64,
                    _ => -1.,
                };
                let before = p3(&x);
                // writing through the point changes that coordinate only
                let y = x;
                x[i[4] as usize] = i[5];
                let after = p3(&x);
                let mut r = vec![OK, n, bl(same && x.len() == p.len())];
                r.extend(before);
                r.extend(after);
                r.push(bl(x == y));
                r.push(bl(p3(&y) == before));
                r
            }
            _ => unreachable!(),
        }
    }
    fn generate(&mut self, g: &mut Gen, rec: &mut Rec) {
        let w = self.which;
        let n = match w {
            25 => g.n(900, 6000),
            26 => g.n(320, 2500),
            _ => g.n(300, 2500),
        };
        for hist in 0..n {
            rec.mark();
            *self = Lines::new(w);
            // a few histories with very many vertices, or very many segments
            let (long, many) = (hist < 2, w != 25 && hist == 2);
            let kind = 1 + g.r.below(6) as i32;
            let mut pool: Vec<Vec<f64>> = vec![];
            // the path continues here (a curve's next segment should start at the end of the previous one)
            let mut from: Option<Vec<f64>> = None;
            let segs = if w == 25 { 1 } else if many { 280 + g.r.below(40) } else if long { 1 } else { 1 + g.r.below(4) };
            for seg in 0..segs {
                let k2 = if seg > 0 && !many && g.r.chance(0.06) { 1 + g.r.below(6) as i32 } else { kind };
                let dim = self.all[k2 as usize - 1].as_dyn().dim();
                let a = match &from {
                    Some(p) if p.len() == dim && !many && g.r.chance(0.06) => nudge(g, k2, p),
                    Some(p) if p.len() == dim && (many || !g.r.chance(0.08)) => {
                        let p = p.clone();
                        if g.r.chance(0.2) { flip(g, p) } else { p }
                    }
                    _ => pos(g, k2, dim, &pool),
                };
                pool.push(a.clone());
                let b = pos(g, k2, dim, &pool);
                pool.push(b.clone());
                let (a, b) = if w == 25 && !long && g.r.chance(0.1) { (odd(g, a), b) } else { (a, b) };
                let (a, b) = if w == 25 && !long && g.r.chance(0.1) { (a, odd(g, b)) } else { (a, b) };
                let mut i = vec![k2 as f64, a.len() as f64];
                i.extend(p3(&a));
                i.push(b.len() as f64);
                i.extend(p3(&b));
                rec.push_seq(self.call(1, &i));
                if self.b.is_none() {
                    continue;
                }
                let m = if long { 270 + g.r.below(60) } else if many { g.r.below(2) } else { g.r.below(if w == 25 { 12 } else { 6 }) };
                let mut broken = false;
                for _ in 0..m {
                    let mut p = pos(g, k2, dim, &pool);
                    // sometimes back to, or next to, where everything started
                    if w == 27 && seg + 1 == segs && pool[0].len() == dim && g.r.chance(0.3) {
                        p = match g.r.below(6) {
                            0 | 1 => pool[0].clone(),
                            2 => flip(g, pool[0].clone()),
                            _ => nudge(g, k2, &pool[0]),
                        };
                    }
                    pool.push(p.clone());
                    if w == 25 && !long && g.r.chance(0.06) {
                        p = odd(g, p);
                    }
                    let op = if w == 25 && g.r.chance(0.2) { 5 } else { 2 };
                    let mut i = vec![p.len() as f64];
                    i.extend(p3(&p));
                    rec.push_seq(self.call(op, &i));
                    if self.b.is_none() {
                        broken = true;
                        break;
                    }
                }
                if broken {
                    continue;
                }
                let op = if !many && g.r.chance(if w == 25 { 0.4 } else { 0.15 }) { 3 } else { 4 };
                rec.push_seq(self.call(op, &[]));
                let l = match &self.line {
                    Some(l) if self.b.is_none() => l.clone(),
                    _ => continue,
                };
                from = Some(l.end().to_vec());
                if (w == 26 && !many) || long || g.r.chance(0.2) {
                    let len = l.length(self.crs.as_dyn()).m();
                    let at = self.stations(0);
                    for _ in 0..if long { 20 } else if many { 1 } else { g.n(6, 8) } {
                        let s = arc(g, len, &at, w == 26);
                        rec.push_seq(self.call(10, &[s]));
                    }
                }
                if w == 25 {
                    continue;
                }
                if self.cb.is_none() {
                    let ck = if !many && g.r.chance(0.05) { 1. + g.r.below(6) as f64 } else { kind as f64 };
                    rec.push_seq(self.call(11, &[ck]));
                } else {
                    if w == 27 && !many && g.r.chance(0.15) {
                        rec.push_seq(self.call(15, &[]));
                    }
                    rec.push_seq(self.call(12, &[]));
                }
            }
            if w == 25 && self.line.is_some() && g.r.chance(0.5) {
                self.twin(g, rec, kind, long);
            }
            if w != 25 && self.cb.is_some() {
                rec.push_seq(self.call(13, &[]));
                if let Some(k) = &self.curve {
                    let len = k.length(self.crs.as_dyn()).m();
                    let at = self.stations(1);
                    for _ in 0..if many { 16 } else if w == 26 { 8 } else { 3 } {
                        let s = arc(g, len, &at, w == 26);
                        rec.push_seq(self.call(14, &[s]));
                    }
                }
            }
            if w == 27 {
                for _ in 0..2 {
                    let n = if g.r.chance(0.1) { g.r.pick(&[0, 1, 4]) } else { 2 + g.r.below(2) };
                    let mut i = vec![n.min(3) as f64, g.mag(1e-3, 1e7), g.mag(1e-3, 1e7), g.mag(1e-3, 1e7)];
                    i.push(g.r.below(n.clamp(1, 3)) as f64);
                    i.push(g.mag(1e-3, 1e7));
                    rec.push_seq(self.call(20, &i));
                }
            }
        }
    }
}
impl Lines {
    /// two lines from the same positions, or positions with one repeated, dropped, moved or swapped, compared
    fn twin(&mut self, g: &mut Gen, rec: &mut Rec, kind: i32, long: bool) {
        let dim = self.all[kind as usize - 1].as_dyn().dim();
        let mut pool = vec![];
        let n = if long { 200 + g.r.below(100) } else { 3 + g.r.below(20) };
        while pool.len() < n {
            let p = pos(g, kind, dim, &pool);
            for _ in 0..if g.r.chance(0.2) { 2 + g.r.below(2) } else { 1 } {
                pool.push(p.clone());
            }
        }
        let mut other = pool.clone();
        let k = if g.r.chance(0.3) { other.len() - 1 } else { g.r.below(other.len()) };
        match g.r.below(7) {
            0 => {
                other.remove(k);
            }
            1 => {
                let at = g.r.below(other.len());
                let p = other[k].clone();
                other.insert(at, p);
            }
            2 | 3 => {
                let p = other[k].clone();
                other.insert(k, p);
            }
            4 => {
                let j = g.r.below(other.len());
                other.swap(j, k);
            }
            5 => other[k] = nudge(g, kind, &other[k]),
            _ => {}
        }
        // one of the two may be ended by closing it, also when it has already come back to its start
        let mut close = if g.r.chance(0.5) { 1 + g.r.below(3) } else { 0 };
        if g.r.chance(0.4) {
            for _ in 0..1 + g.r.below(2) {
                let (a, b) = (pool[0].clone(), other[0].clone());
                pool.push(a);
                other.push(b);
            }
        }
        if close & 1 == 1 && close != 3 && g.r.chance(0.6) {
            let p = other[0].clone();
            other.push(p);
        }
        let mut done = 0;
        for ps in [pool, other] {
            let mut i = vec![kind as f64, dim as f64];
            i.extend(p3(&ps[0]));
            i.push(dim as f64);
            i.extend(p3(&ps[1]));
            rec.push_seq(self.call(1, &i));
            for p in &ps[2..] {
                if self.b.is_none() {
                    return;
                }
                let mut i = vec![dim as f64];
                i.extend(p3(p));
                rec.push_seq(self.call(2, &i));
            }
            if self.b.is_none() {
                return;
            }
            rec.push_seq(self.call(if close & 1 == 1 { 3 } else { 4 }, &[]));
            close >>= 1;
            done += 1;
            if done == 1 {
                rec.push_seq(self.call(6, &[]));
            }
        }
        rec.push_seq(self.call(7, &[]));
    }
}
/// a position of the CRS; sometimes one already used
fn pos(g: &mut Gen, kind: i32, dim: usize, pool: &[Vec<f64>]) -> Vec<f64> {
    if !pool.is_empty() && g.r.chance(0.2) {
        let p = &pool[g.r.below(pool.len())];
        if p.len() == dim {
            let q = p.clone();
            return if g.r.chance(0.3) { flip(g, q) } else { q };
        }
    }
    // next to a position already used: one coordinate moved a little, or a lot
    if !pool.is_empty() && g.r.chance(0.2) {
        let p = &pool[if g.r.chance(0.5) { 0 } else { g.r.below(pool.len()) }];
        if p.len() == dim {
            return nudge(g, kind, p);
        }
    }
    let small = g.r.chance(0.3);
    let mut v: Vec<f64> = match kind {
        4 | 5 if small => vec![g.r.uni(-3., 3.), g.r.uni(-3., 3.)],
        // within a hemisphere, so that geodesic distances exist
        4 | 5 => vec![g.deg(70.), g.deg(90.)],
        _ if small => vec![g.r.below(4) as f64, g.r.below(4) as f64],
        _ => vec![g.mag(1e-3, 1e6), g.mag(1e-3, 1e6)],
    };
    if dim == 3 {
        v.push(if small { g.r.below(3) as f64 } else { g.mag(1e-3, 1e5) });
    }
    v.truncate(dim);
    v
}
/// the same position with the sign of some of its zeros changed
fn flip(g: &mut Gen, mut p: Vec<f64>) -> Vec<f64> {
    for x in p.iter_mut() {
        if *x == 0. && g.r.chance(0.6) {
            *x = -*x;
        }
    }
    p
}
fn nudge(g: &mut Gen, kind: i32, p: &[f64]) -> Vec<f64> {
    let mut q = p.to_vec();
    let k = g.r.below(q.len());
    let unit = if k < 2 && (kind == 4 || kind == 5) { 1e-5 } else { 1. };
    q[k] = match g.r.below(8) {
        // (an ulp the fixed point encoding can show)
        0 if q[k].abs() > 1e-6 => q[k].next_up(),
        1 if q[k].abs() > 1e-6 => q[k].next_down(),
        _ => q[k] + g.r.sign() * unit * g.r.log(1e-9, 10.),
    };
    if unit < 1. {
        q[1] = q[1].clamp(-90., 90.);
    }
    q
}
/// a position of the wrong dimension
fn odd(g: &mut Gen, mut p: Vec<f64>) -> Vec<f64> {
    if p.len() == 2 && g.r.chance(0.5) {
        p.push(g.mag(1e-3, 10.));
    } else {
        p.pop();
    }
    p
}
fn arc(g: &mut Gen, len: f64, at: &[f64], outside: bool) -> f64 {
    match g.r.below(13) {
        // at, just before or just after a vertex
        10 | 11 | 12 => {
            let k = g.r.below(at.len() + 1);
            let s = if k == 0 { 0. } else { at[k - 1] };
            let d = g.r.log(1e-9, 1e-3) * if g.r.chance(0.5) { len } else { 1. };
            (if g.r.chance(0.2) { s } else { s + g.r.sign() * d }).clamp(0., len)
        }
        0 => 0.,
        1 | 2 => len,
        3 if outside => len * (1. + g.r.log(1e-9, 1.)) + 1e-3,
        4 if outside => -g.r.log(1e-6, 1e3),
        5 => len.next_down().max(0.),
        6 => len * g.r.below(5) as f64 / 4.,
        _ => len * g.r.f(),
    }
}
