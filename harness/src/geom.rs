//! Independent analytic geometry used by every oracle. Nothing here calls the library under test.
use std::f64::consts::{PI, TAU};

#[derive(Copy, Clone, Debug, PartialEq)]
pub struct P {
    pub x: f64,
    pub y: f64,
}
pub fn p(x: f64, y: f64) -> P {
    P { x, y }
}
impl std::ops::Add for P {
    type Output = P;
    fn add(self, o: P) -> P {
        p(self.x + o.x, self.y + o.y)
    }
}
impl std::ops::Sub for P {
    type Output = P;
    fn sub(self, o: P) -> P {
        p(self.x - o.x, self.y - o.y)
    }
}
impl std::ops::Mul<f64> for P {
    type Output = P;
    fn mul(self, k: f64) -> P {
        p(self.x * k, self.y * k)
    }
}
impl P {
    pub fn dot(self, o: P) -> f64 {
        self.x * o.x + self.y * o.y
    }
    pub fn cross(self, o: P) -> f64 {
        self.x * o.y - self.y * o.x
    }
    pub fn len(self) -> f64 {
        self.x.hypot(self.y)
    }
    pub fn unit(self) -> P {
        let l = self.len();
        p(self.x / l, self.y / l)
    }
    pub fn left(self) -> P {
        p(-self.y, self.x)
    }
    pub fn dist(self, o: P) -> f64 {
        (self - o).len()
    }
    pub fn ang(self) -> f64 {
        self.y.atan2(self.x)
    }
}
pub fn polar(c: P, r: f64, a: f64) -> P {
    p(c.x + r * a.cos(), c.y + r * a.sin())
}
/// angle into [0, 2pi)
pub fn norm(a: f64) -> f64 {
    let r = a.rem_euclid(TAU);
    if r >= TAU { 0.0 } else { r }
}

pub type V = [f64; 3];

#[derive(Copy, Clone, Debug)]
pub enum Seg {
    L { a: P, b: P },
    /// center, radius, start angle, signed sweep
    A { a: P, b: P, c: P, r: f64, a0: f64, sw: f64 },
}

pub const BULGE_ZERO: f64 = 1e-8;

impl Seg {
    pub fn new(v1: V, v2: V) -> Seg {
        let a = p(v1[0], v1[1]);
        let b = p(v2[0], v2[1]);
        let k = v1[2];
        if k.abs() < BULGE_ZERO {
            return Seg::L { a, b };
        }
        let ch = b - a;
        let d = ch.len();
        let r = d * (1.0 + k * k) / (4.0 * k.abs());
        let m = (a + b) * 0.5;
        let c = m + ch.left() * ((1.0 - k * k) / (4.0 * k));
        Seg::A { a, b, c, r, a0: (a - c).ang(), sw: 4.0 * k.atan() }
    }
    pub fn a(&self) -> P {
        match *self {
            Seg::L { a, .. } | Seg::A { a, .. } => a,
        }
    }
    pub fn b(&self) -> P {
        match *self {
            Seg::L { b, .. } | Seg::A { b, .. } => b,
        }
    }
    pub fn is_arc(&self) -> bool {
        matches!(self, Seg::A { .. })
    }
    pub fn len(&self) -> f64 {
        match *self {
            Seg::L { a, b } => a.dist(b),
            Seg::A { r, sw, .. } => r * sw.abs(),
        }
    }
    /// point at parameter t in [0,1] (proportional to arc length)
    pub fn at(&self, t: f64) -> P {
        match *self {
            Seg::L { a, b } => a + (b - a) * t,
            Seg::A { a, b, c, r, a0, sw } => {
                if t <= 0.0 {
                    a
                } else if t >= 1.0 {
                    b
                } else if r > 1e6 * a.dist(b) {
                    // very flat arc: chord + sagitta interpolation is better conditioned
                    let ch = b - a;
                    let k = (sw / 4.0).tan();
                    let m = a + ch * t;
                    let sag = k * 0.5 * 4.0 * t * (1.0 - t);
                    m - ch.left() * sag
                } else {
                    polar(c, r, a0 + sw * t)
                }
            }
        }
    }
    /// unit tangent at parameter
    pub fn tan(&self, t: f64) -> P {
        match *self {
            Seg::L { a, b } => (b - a).unit(),
            Seg::A { a0, sw, .. } => {
                let u = polar(p(0.0, 0.0), 1.0, a0 + sw * t).left();
                if sw > 0.0 { u } else { u * -1.0 }
            }
        }
    }
    /// is angle (direction from center) inside the sweep, with slack (radians)
    pub fn in_sweep(&self, dir: P, slack: f64) -> bool {
        match *self {
            Seg::L { .. } => true,
            Seg::A { a0, sw, .. } => {
                let d = if sw > 0.0 { norm(dir.ang() - a0) } else { norm(a0 - dir.ang()) };
                d <= sw.abs() + slack || d >= TAU - slack
            }
        }
    }
    /// parameter of closest point and distance
    pub fn closest(&self, q: P) -> (f64, f64) {
        match *self {
            Seg::L { a, b } => {
                let u = b - a;
                let l2 = u.dot(u);
                let t = if l2 == 0.0 { 0.0 } else { ((q - a).dot(u) / l2).clamp(0.0, 1.0) };
                (t, q.dist(a + u * t))
            }
            Seg::A { a, b, c, r, a0, sw } => {
                let v = q - c;
                let vl = v.len();
                let (da, db) = (q.dist(a), q.dist(b));
                let mut best = if da <= db { (0.0, da) } else { (1.0, db) };
                if vl > 0.0 {
                    let d = if sw > 0.0 { norm(v.ang() - a0) } else { norm(a0 - v.ang()) };
                    if d <= sw.abs() {
                        let dd = (vl - r).abs();
                        if dd <= best.1 {
                            best = (d / sw.abs(), dd);
                        }
                    }
                }
                best
            }
        }
    }
    pub fn dist(&self, q: P) -> f64 {
        self.closest(q).1
    }
    /// exact bounding box (minx, miny, maxx, maxy)
    pub fn bbox(&self) -> [f64; 4] {
        let (a, b) = (self.a(), self.b());
        let mut bb = [a.x.min(b.x), a.y.min(b.y), a.x.max(b.x), a.y.max(b.y)];
        if let Seg::A { c, r, a0, sw, .. } = *self {
            for k in 0..4 {
                let th = k as f64 * PI / 2.0;
                let d = if sw > 0.0 { norm(th - a0) } else { norm(a0 - th) };
                if d <= sw.abs() {
                    match k {
                        0 => bb[2] = bb[2].max(c.x + r),
                        1 => bb[3] = bb[3].max(c.y + r),
                        2 => bb[0] = bb[0].min(c.x - r),
                        _ => bb[1] = bb[1].min(c.y - r),
                    }
                }
            }
        }
        bb
    }
    pub fn rev(&self) -> Seg {
        match *self {
            Seg::L { a, b } => Seg::L { a: b, b: a },
            Seg::A { a, b, c, r, a0, sw } => Seg::A { a: b, b: a, c, r, a0: a0 + sw, sw: -sw },
        }
    }
    /// contribution to the winding angle about q (q not on the segment)
    pub fn winding_angle(&self, q: P) -> f64 {
        let (a, b) = (self.a(), self.b());
        let (u, v) = (a - q, b - q);
        let side = u.cross(v) + 0.0; // > 0: q is left of the chord
        let chord = side.atan2(u.dot(v));
        match *self {
            Seg::L { .. } => chord,
            Seg::A { c, r, sw, .. } => {
                // is q inside the region between chord and arc?
                // (arcs sweep at most pi, or slightly more for generality)
                let in_circle = q.dist(c) < r;
                let on_arc_side = if sw > 0.0 { side < 0.0 } else { side >= 0.0 };
                if in_circle && on_arc_side {
                    // arc goes the other way round q
                    if sw > 0.0 {
                        if chord > 0.0 { chord } else { chord + TAU }
                    } else if chord < 0.0 {
                        chord
                    } else {
                        chord - TAU
                    }
                } else {
                    chord
                }
            }
        }
    }
}

#[derive(Clone, Debug)]
pub struct Path {
    pub v: Vec<V>,
    pub closed: bool,
    pub segs: Vec<Seg>,
    pub boxes: Vec<[f64; 4]>,
}

impl Path {
    pub fn new(v: Vec<V>, closed: bool) -> Path {
        let n = v.len();
        let mut segs = Vec::new();
        if n >= 2 {
            let m = if closed { n } else { n - 1 };
            for i in 0..m {
                segs.push(Seg::new(v[i], v[(i + 1) % n]));
            }
        }
        let boxes = segs.iter().map(|s| s.bbox()).collect();
        Path { v, closed, segs, boxes }
    }
    pub fn len(&self) -> f64 {
        self.segs.iter().map(|s| s.len()).sum()
    }
    pub fn dist(&self, q: P) -> f64 {
        let mut best = f64::INFINITY;
        for (s, bb) in self.segs.iter().zip(&self.boxes) {
            let dx = (bb[0] - q.x).max(q.x - bb[2]).max(0.0);
            let dy = (bb[1] - q.y).max(q.y - bb[3]).max(0.0);
            if dx * dx + dy * dy < best * best {
                let d = s.dist(q);
                if d < best {
                    best = d;
                }
            }
        }
        if self.segs.is_empty() && !self.v.is_empty() {
            best = q.dist(p(self.v[0][0], self.v[0][1]));
        }
        best
    }
    /// (segment, parameter, distance)
    pub fn closest(&self, q: P) -> (usize, f64, f64) {
        let mut best = (0, 0.0, f64::INFINITY);
        for (i, s) in self.segs.iter().enumerate() {
            let (t, d) = s.closest(q);
            if d < best.2 {
                best = (i, t, d);
            }
        }
        best
    }
    /// winding number about q for a closed path, q must be off the boundary
    pub fn winding(&self, q: P) -> i64 {
        if !self.closed {
            return 0;
        }
        let bb = self.bbox();
        if q.x < bb[0] || q.x > bb[2] || q.y < bb[1] || q.y > bb[3] {
            return 0;
        }
        let s: f64 = self.segs.iter().map(|s| s.winding_angle(q)).sum();
        (s / TAU).round() as i64
    }
    pub fn inside(&self, q: P) -> bool {
        self.winding(q) != 0
    }
    pub fn bbox(&self) -> [f64; 4] {
        let mut bb = [f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY];
        for b in &self.boxes {
            bb[0] = bb[0].min(b[0]);
            bb[1] = bb[1].min(b[1]);
            bb[2] = bb[2].max(b[2]);
            bb[3] = bb[3].max(b[3]);
        }
        bb
    }
    pub fn area(&self) -> f64 {
        if !self.closed || self.segs.is_empty() {
            return 0.0;
        }
        let o = self.segs[0].a();
        let mut s = 0.0;
        for g in &self.segs {
            s += (g.a() - o).cross(g.b() - o) * 0.5;
            if let Seg::A { r, sw, .. } = *g {
                // signed area of circular segment
                s += 0.5 * r * r * (sw - sw.sin());
            }
        }
        s
    }
    pub fn diag(&self) -> f64 {
        let b = self.bbox();
        p(b[0], b[1]).dist(p(b[2], b[3]))
    }
    pub fn max_abs(&self) -> f64 {
        self.v.iter().fold(0.0f64, |m, v| m.max(v[0].abs()).max(v[1].abs()))
    }
    pub fn pos(&self, i: usize) -> P {
        p(self.v[i][0], self.v[i][1])
    }
}

/// solutions of two segments' intersection (points), plus a flag telling that the configuration
/// is within `m` of a change (tangency, endpoint contact, overlap), so the list is not trustworthy.
pub struct Isect {
    pub pts: Vec<P>,
    pub ambiguous: bool,
}

pub fn seg_isect(s1: &Seg, s2: &Seg, m: f64) -> Isect {
    let mut pts = Vec::new();
    let mut amb = false;
    // quick reject with margin
    let (b1, b2) = (s1.bbox(), s2.bbox());
    if b1[0] > b2[2] + m || b2[0] > b1[2] + m || b1[1] > b2[3] + m || b2[1] > b1[3] + m {
        return Isect { pts, ambiguous: false };
    }
    // an endpoint near the other segment is ambiguous
    for q in [s1.a(), s1.b()] {
        if s2.dist(q) < m {
            amb = true;
        }
    }
    for q in [s2.a(), s2.b()] {
        if s1.dist(q) < m {
            amb = true;
        }
    }
    match (*s1, *s2) {
        (Seg::L { a, b }, Seg::L { a: c, b: d }) => {
            let u = b - a;
            let v = d - c;
            let den = u.cross(v);
            if den.abs() > 1e-12 * u.len() * v.len() {
                let t = (c - a).cross(v) / den;
                let w = (c - a).cross(u) / den;
                if (0.0..=1.0).contains(&t) && (0.0..=1.0).contains(&w) {
                    pts.push(a + u * t);
                    if den.abs() < 1e-4 * u.len() * v.len() {
                        amb = true;
                    }
                }
            }
        }
        (Seg::L { a, b }, arc @ Seg::A { .. }) | (arc @ Seg::A { .. }, Seg::L { a, b }) => {
            let Seg::A { c, r, .. } = arc else { unreachable!() };
            let u = (b - a).unit();
            let tf = (c - a).dot(u);
            let foot = a + u * tf;
            let h = c.dist(foot);
            let l = a.dist(b);
            // near tangency
            if (h - r).abs() < m && tf > -m && tf < l + m && arc.dist(foot) < m {
                amb = true;
            }
            if h < r {
                let k = ((r - h) * (r + h)).sqrt();
                for t in [tf - k, tf + k] {
                    if t >= 0.0 && t <= l {
                        let q = a + u * t;
                        if arc.in_sweep(q - c, 0.0) {
                            pts.push(q);
                        }
                    }
                }
            }
        }
        (Seg::A { c: c1, r: r1, .. }, Seg::A { c: c2, r: r2, .. }) => {
            let dv = c2 - c1;
            let d = dv.len();
            if d < m && (r1 - r2).abs() < m {
                // (nearly) same circle
                // overlap or endpoint contact would have been flagged by endpoint test
                return Isect { pts, ambiguous: amb || s1.dist(s2.at(0.5)) < m || s2.dist(s1.at(0.5)) < m };
            }
            if d > 0.0 {
                let u = dv * (1.0 / d);
                // tangency candidates
                for sgn in [1.0, -1.0] {
                    let q = c1 + u * (r1 * sgn);
                    if ((q.dist(c2)) - r2).abs() < m
                        && s1.in_sweep(q - c1, m / r1)
                        && s2.dist(q) < m
                    {
                        amb = true;
                    }
                }
                let x = (d * d + (r1 - r2) * (r1 + r2)) / (2.0 * d);
                if x.abs() < r1 {
                    let y = ((r1 - x) * (r1 + x)).sqrt();
                    for sgn in [1.0, -1.0] {
                        let q = c1 + u * x + u.left() * (y * sgn);
                        if s1.in_sweep(q - c1, 0.0) && s2.in_sweep(q - c2, 0.0) {
                            pts.push(q);
                        }
                    }
                }
            }
        }
    }
    Isect { pts, ambiguous: amb }
}

/// minimum distance between two segments
pub fn seg_seg_dist(s1: &Seg, s2: &Seg) -> f64 {
    let is = seg_isect(s1, s2, 0.0);
    if !is.pts.is_empty() {
        return 0.0;
    }
    let mut d = f64::INFINITY;
    for q in [s1.a(), s1.b()] {
        d = d.min(s2.dist(q));
    }
    for q in [s2.a(), s2.b()] {
        d = d.min(s1.dist(q));
    }
    match (*s1, *s2) {
        (Seg::L { a, b }, arc @ Seg::A { .. }) | (arc @ Seg::A { .. }, Seg::L { a, b }) => {
            let Seg::A { c, .. } = arc else { unreachable!() };
            let u = b - a;
            let t = ((c - a).dot(u) / u.dot(u)).clamp(0.0, 1.0);
            d = d.min(arc.dist(a + u * t));
        }
        (Seg::A { c: c1, r: r1, .. }, Seg::A { c: c2, .. }) => {
            let dv = c2 - c1;
            if dv.len() > 0.0 {
                let u = dv.unit();
                for sgn in [1.0, -1.0] {
                    let q = c1 + u * (r1 * sgn);
                    if s1.in_sweep(q - c1, 0.0) {
                        d = d.min(s2.dist(q));
                    }
                }
            }
        }
        _ => {}
    }
    d
}

pub fn box_gap(a: &[f64; 4], b: &[f64; 4]) -> f64 {
    let dx = (a[0] - b[2]).max(b[0] - a[2]).max(0.0);
    let dy = (a[1] - b[3]).max(b[1] - a[3]).max(0.0);
    dx.hypot(dy)
}

/// Simple (non self touching) with clearance `m`: non adjacent segments stay `m` apart, adjacent
/// ones only meet at their shared vertex and do not fold back on each other.
pub fn is_simple(path: &Path, m: f64) -> bool {
    let n = path.segs.len();
    for s in &path.segs {
        if s.len() < m {
            return false;
        }
    }
    for i in 0..n {
        for j in (i + 1)..n {
            let adj_next = j == i + 1;
            let adj_wrap = path.closed && i == 0 && j == n - 1;
            if !adj_next && !adj_wrap {
                if box_gap(&path.boxes[i], &path.boxes[j]) < m
                    && seg_seg_dist(&path.segs[i], &path.segs[j]) < m
                {
                    return false;
                }
                continue;
            }
            // adjacent
            let (s, t) = (&path.segs[i], &path.segs[j]);
            if n == 2 && path.closed {
                // two segment loop: meet at both vertices only
                let is = seg_isect(s, t, 0.0);
                let (a, b) = (s.a(), s.b());
                if is.pts.iter().any(|q| q.dist(a) > 1e-7 && q.dist(b) > 1e-7) {
                    return false;
                }
                if path.area().abs() < m * path.diag() {
                    return false;
                }
                if fold(s, t, m) || fold(t, s, m) {
                    return false;
                }
                continue;
            }
            let (s, t) = if adj_next { (s, t) } else { (t, s) };
            let v = s.b();
            let is = seg_isect(s, t, 0.0);
            if is.pts.iter().any(|q| q.dist(v) > 1e-7 + 1e-9 * v.len()) {
                return false;
            }
            // far ends keep away
            if t.dist(s.a()) < m || s.dist(t.b()) < m {
                return false;
            }
            if fold(s, t, m) {
                return false;
            }
        }
    }
    true
}

/// does t fold back over s at s.b()==t.a() (angle between reverse of s and t tiny)
fn fold(s: &Seg, t: &Seg, m: f64) -> bool {
    let u = s.tan(1.0) * -1.0;
    let w = t.tan(0.0);
    let ang = u.cross(w).atan2(u.dot(w)).abs();
    if ang < 0.05 {
        return true;
    }
    let _ = m;
    false
}

/// evenly spaced sample parameters, avoiding ends by eps
pub fn params(n: usize) -> impl Iterator<Item = f64> {
    (0..n).map(move |i| (i as f64 + 0.5) / n as f64)
}

pub fn transform(v: &[V], k: f64, rot: f64, tx: f64, ty: f64) -> Vec<V> {
    let (s, c) = rot.sin_cos();
    v.iter()
        .map(|q| [k * (c * q[0] - s * q[1]) + tx, k * (s * q[0] + c * q[1]) + ty, q[2]])
        .collect()
}
pub fn reverse(v: &[V], closed: bool) -> Vec<V> {
    // same geometry, opposite direction
    let n = v.len();
    let mut out = Vec::with_capacity(n);
    for i in (0..n).rev() {
        let b = if i > 0 {
            -v[i - 1][2]
        } else if closed {
            -v[n - 1][2]
        } else {
            -v[n - 1][2]
        };
        out.push([v[i][0], v[i][1], b]);
    }
    out
}
pub fn rotate(v: &[V], k: usize) -> Vec<V> {
    let n = v.len();
    (0..n).map(|i| v[(i + k) % n]).collect()
}
pub fn mirror(v: &[V]) -> Vec<V> {
    v.iter().map(|q| [-q[0], q[1], -q[2]]).collect()
}

/// no contact of the two paths is within `m` of being degenerate (vertex contact, tangency, overlap)
pub fn general_position(a: &Path, b: &Path, m: f64, min_sin: f64) -> bool {
    for (x, y) in [(a, b), (b, a)] {
        for i in 0..x.v.len() {
            if y.dist(x.pos(i)) < m {
                return false;
            }
        }
    }
    for (i, s) in a.segs.iter().enumerate() {
        for (j, t) in b.segs.iter().enumerate() {
            if box_gap(&a.boxes[i], &b.boxes[j]) > m {
                continue;
            }
            if !pair_general(s, t, m, min_sin) {
                return false;
            }
        }
    }
    true
}
pub fn pair_general(s: &Seg, t: &Seg, m: f64, min_sin: f64) -> bool {
    let is = seg_isect(s, t, m);
    if is.ambiguous {
        return false;
    }
    is.pts.iter().all(|q| {
        let (u, w) = (s.tan(s.closest(*q).0), t.tan(t.closest(*q).0));
        u.cross(w).abs() >= min_sin
    })
}

/// isolated contact points of two segments on exact (grid) data: crossings, end point contacts and
/// tangencies, to absolute precision `e`
pub fn contacts(s: &Seg, t: &Seg, e: f64) -> Vec<P> {
    let mut out = seg_isect(s, t, 0.0).pts;
    for q in [s.a(), s.b()] {
        if t.dist(q) < e {
            out.push(q);
        }
    }
    for q in [t.a(), t.b()] {
        if s.dist(q) < e {
            out.push(q);
        }
    }
    match (*s, *t) {
        (Seg::L { a, b }, arc @ Seg::A { .. }) | (arc @ Seg::A { .. }, Seg::L { a, b }) => {
            let Seg::A { c, .. } = arc else { unreachable!() };
            let u = (b - a).unit();
            let tf = (c - a).dot(u);
            let q = a + u * tf;
            if tf > -e && tf < a.dist(b) + e && arc.dist(q) < e {
                out.push(q);
            }
        }
        (Seg::A { c: c1, r: r1, .. }, Seg::A { c: c2, .. }) => {
            if c1.dist(c2) > e {
                let u = (c2 - c1).unit();
                for sg in [1.0, -1.0] {
                    let q = c1 + u * (r1 * sg);
                    if s.dist(q) < e && t.dist(q) < e {
                        out.push(q);
                    }
                }
            }
        }
        _ => {}
    }
    out
}
/// same line or same circle
pub fn same_carrier(s: &Seg, t: &Seg, e: f64) -> bool {
    match (*s, *t) {
        (Seg::L { a, b }, Seg::L { a: c, b: d }) => {
            let u = (b - a).unit();
            u.cross(c - a).abs() < e && u.cross(d - a).abs() < e
        }
        (Seg::A { c: c1, r: r1, .. }, Seg::A { c: c2, r: r2, .. }) => c1.dist(c2) < e && (r1 - r2).abs() < e,
        _ => false,
    }
}
