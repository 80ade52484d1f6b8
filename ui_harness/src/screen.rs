//! What is on the screen: meshes and marks taken out of painted shapes, compared against curves.
use cavc_monitor::geom::{P, Path, Seg, p};
use egui::{Color32, Rect, Shape, epaint};

/// exact affine map from drawing to pixel coordinates
#[derive(Clone, Copy, Debug)]
pub struct View {
    pub frame: Rect,
    pub min: P,
    pub s: f64,
}
impl View {
    pub fn px(&self, q: P) -> P {
        p(self.frame.left() as f64 + (q.x - self.min.x) * self.s, self.frame.bottom() as f64 - (q.y - self.min.y) * self.s)
    }
    pub fn world(&self, q: P) -> P {
        p(self.min.x + (q.x - self.frame.left() as f64) / self.s, self.min.y + (self.frame.bottom() as f64 - q.y) / self.s)
    }
    /// visible, at least m pixels away from the border
    pub fn visible(&self, q: P, m: f64) -> bool {
        let f = &self.frame;
        q.x > f.left() as f64 + m && q.x < f.right() as f64 - m && q.y > f.top() as f64 + m && q.y < f.bottom() as f64 - m
    }
}

#[derive(Default, Debug)]
pub struct Tris {
    pub t: Vec<[P; 3]>,
    bins: Vec<Vec<u32>>,
    org: P0,
    n: usize,
}
#[derive(Default, Debug, Clone, Copy)]
struct P0 {
    x: f64,
    y: f64,
    w: f64,
    h: f64,
}

pub struct Marks {
    pub c: P,
    pub r: f64,
    pub color: Color32,
}

pub struct Scene {
    /// in the order of painting
    pub meshes: Vec<(Color32, Vec<[P; 3]>)>,
    pub marks: Vec<Marks>,
    pub other: u64,
}

pub fn collect(shapes: &[Shape]) -> Result<Scene, String> {
    let mut sc = Scene { meshes: vec![], marks: vec![], other: 0 };
    for s in shapes {
        walk(s, &mut sc)?;
    }
    Ok(sc)
}
fn walk(s: &Shape, sc: &mut Scene) -> Result<(), String> {
    match s {
        Shape::Vec(v) => {
            for s in v {
                walk(s, sc)?;
            }
        }
        Shape::Mesh(m) => add_mesh(m, sc)?,
        Shape::Circle(c) => {
            if !c.center.x.is_finite() || !c.center.y.is_finite() {
                return Err(format!("a mark at {:?}", c.center));
            }
            sc.marks.push(Marks { c: p(c.center.x as f64, c.center.y as f64), r: c.radius as f64, color: c.fill });
        }
        Shape::Noop => {}
        _ => sc.other += 1,
    }
    Ok(())
}
fn add_mesh(m: &epaint::Mesh, sc: &mut Scene) -> Result<(), String> {
    if m.indices.len() % 3 != 0 {
        return Err(format!("a mesh of {} indices", m.indices.len()));
    }
    for t in m.indices.chunks(3) {
        let mut q = [p(0.0, 0.0); 3];
        for k in 0..3 {
            let Some(v) = m.vertices.get(t[k] as usize) else {
                return Err(format!("a mesh index {} of {} vertices", t[k], m.vertices.len()));
            };
            if !v.pos.x.is_finite() || !v.pos.y.is_finite() {
                return Err(format!("a mesh vertex at {:?}", v.pos));
            }
            q[k] = p(v.pos.x as f64, v.pos.y as f64);
        }
        let color = m.vertices[t[0] as usize].color;
        // one mesh may carry several colours
        match sc.meshes.iter_mut().rev().find(|x| x.0 == color) {
            Some(x) => x.1.push(q),
            None => sc.meshes.push((color, vec![q])),
        }
    }
    Ok(())
}

const N: usize = 24;
impl Tris {
    pub fn new(t: Vec<[P; 3]>, frame: &Rect) -> Tris {
        let o = P0 { x: frame.left() as f64 - 20.0, y: frame.top() as f64 - 20.0, w: frame.width() as f64 + 40.0, h: frame.height() as f64 + 40.0 };
        let mut bins = vec![vec![]; N * N];
        for (i, q) in t.iter().enumerate() {
            let lo = p(q[0].x.min(q[1].x).min(q[2].x), q[0].y.min(q[1].y).min(q[2].y));
            let hi = p(q[0].x.max(q[1].x).max(q[2].x), q[0].y.max(q[1].y).max(q[2].y));
            let bi = |v: f64, o: f64, w: f64| (((v - o) / w * N as f64).floor() as i64).clamp(-1, N as i64);
            let (x0, x1, y0, y1) = (bi(lo.x, o.x, o.w), bi(hi.x, o.x, o.w), bi(lo.y, o.y, o.h), bi(hi.y, o.y, o.h));
            for x in x0.max(0)..=x1.min(N as i64 - 1) {
                for y in y0.max(0)..=y1.min(N as i64 - 1) {
                    bins[x as usize * N + y as usize].push(i as u32);
                }
            }
        }
        Tris { t, bins, org: o, n: N }
    }
    fn bin(&self, q: P) -> Option<usize> {
        let x = ((q.x - self.org.x) / self.org.w * self.n as f64).floor();
        let y = ((q.y - self.org.y) / self.org.h * self.n as f64).floor();
        if x < 0.0 || y < 0.0 || x >= self.n as f64 || y >= self.n as f64 {
            return None;
        }
        Some(x as usize * self.n + y as usize)
    }
    /// (triangles that contain q, whether q is next to the edge of some triangle)
    pub fn count(&self, q: P) -> (usize, bool) {
        let Some(b) = self.bin(q) else { return (0, true) };
        let (mut n, mut edge) = (0, false);
        for &i in &self.bins[b] {
            let t = &self.t[i as usize];
            let m = 0.02 + 1e-6 * t.iter().fold(0.0f64, |m, q| m.max(q.x.abs()).max(q.y.abs()));
            if apart(t, q, m) {
                continue;
            }
            let d = tri_sd(t, q);
            if d < -m {
                n += 1;
            } else if d < m {
                edge = true;
            }
        }
        (n, edge)
    }
    /// is some triangle within `tol` of q (q inside of the frame)
    pub fn near(&self, q: P, tol: f64) -> bool {
        let (bx, by) = (self.org.w / self.n as f64, self.org.h / self.n as f64);
        let (kx, ky) = ((tol / bx).ceil() as i64, (tol / by).ceil() as i64);
        if kx > 4 || ky > 4 {
            return self.t.iter().any(|t| tri_dist(t, q) <= tol);
        }
        let Some(b) = self.bin(q) else { return true };
        let (x, y) = ((b / self.n) as i64, (b % self.n) as i64);
        for i in (x - kx).max(0)..=(x + kx).min(self.n as i64 - 1) {
            for j in (y - ky).max(0)..=(y + ky).min(self.n as i64 - 1) {
                if self.bins[i as usize * self.n + j as usize].iter().any(|&k| !apart(&self.t[k as usize], q, tol) && tri_dist(&self.t[k as usize], q) <= tol) {
                    return true;
                }
            }
        }
        false
    }
}
fn seg_d(a: P, b: P, q: P) -> f64 {
    let d = b - a;
    let l = d.dot(d);
    let t = if l > 0.0 { ((q - a).dot(d) / l).clamp(0.0, 1.0) } else { 0.0 };
    q.dist(a + p(d.x * t, d.y * t))
}
/// signed distance, negative inside
fn tri_sd(t: &[P; 3], q: P) -> f64 {
    let e = (0..3).map(|i| seg_d(t[i], t[(i + 1) % 3], q)).fold(f64::INFINITY, f64::min);
    let c = |i: usize| (t[(i + 1) % 3] - t[i]).cross(q - t[i]);
    let c = [c(0), c(1), c(2)];
    if c.iter().all(|x| *x > 0.0) || c.iter().all(|x| *x < 0.0) { -e } else { e }
}
fn apart(t: &[P; 3], q: P, m: f64) -> bool {
    let [a, b, c] = t;
    a.x.min(b.x).min(c.x) > q.x + m || a.x.max(b.x).max(c.x) < q.x - m || a.y.min(b.y).min(c.y) > q.y + m || a.y.max(b.y).max(c.y) < q.y - m
}
fn tri_dist(t: &[P; 3], q: P) -> f64 {
    tri_sd(t, q).max(0.0)
}

/// how far the drawing of a segment may lie from the segment, in pixels: the renderer works with
/// 32 bit numbers and arcs are replaced by other curves
pub fn seg_tol(s: &Seg, v: &View) -> f64 {
    let c = |q: P| {
        let q = v.px(q);
        q.x.abs().max(q.y.abs())
    };
    let mut m = c(s.a()).max(c(s.b()));
    let mut e = 0.0;
    if let Seg::A { r, .. } = *s {
        let b = s.bbox();
        m = m.max(c(p(b[0], b[1]))).max(c(p(b[2], b[3])));
        e = r * v.s * 3e-7;
    }
    e + m * 1e-6
}

pub struct Counts {
    pub points: u64,
    pub tris: u64,
    pub inside: u64,
    pub outside: u64,
}

/// width and joints
pub const PEN: f64 = 4.4;

/// every visible point of the curves is drawn and only they are; Err: (kind, message)
pub fn strokes(paths: &[Path], tris: &Tris, v: &View, focus: Option<P>) -> Result<Counts, (&'static str, String)> {
    let mut n = Counts { points: 0, tris: 0, inside: 0, outside: 0 };
    let mut tol_max = 0.0f64;
    for pa in paths {
        for s in &pa.segs {
            let tol = seg_tol(s, v);
            if tol > 200.0 {
                return Ok(n);
            }
            tol_max = tol_max.max(tol);
        }
    }
    for pa in paths {
        // drawings of less than a pixel may vanish
        if pa.diag() * v.s < 3.0 {
            continue;
        }
        // end points of what precedes drift too
        for s in &pa.segs {
            let tol = tol_max + 0.8;
            let mut at = |t: f64| -> Result<(), (&'static str, String)> {
                let q = v.px(s.at(t));
                if !v.visible(q, 2.0 + tol) {
                    return Ok(());
                }
                n.points += 1;
                if !tris.near(q, tol) {
                    return Err(("not-drawn", format!("the visible point ({}, {}) of the curve at pixel ({:.2}, {:.2}) is not drawn (tolerance {:.2} px)", s.at(t).x, s.at(t).y, q.x, q.y, tol)));
                }
                Ok(())
            };
            let k = if s.len() * v.s > 2000.0 { 97 } else { 17 };
            for i in 0..=k {
                at(i as f64 / k as f64)?;
            }
            if let Some(f) = focus {
                let (t, _) = s.closest(f);
                let w = 1.0 / (s.len() * v.s).max(1e-9);
                for i in -20..=20 {
                    let u = t + i as f64 * 13.0 * w;
                    if (0.0..=1.0).contains(&u) {
                        at(u)?;
                    }
                }
            }
        }
    }
    let tol = tol_max + PEN;
    let segs: Vec<(&Seg, [f64; 4])> = paths.iter().flat_map(|pa| pa.segs.iter().map(|s| (s, s.bbox()))).collect();
    let wt = tol / v.s;
    // neighbours in the mesh belong to neighbours on the curve
    let mut last = 0;
    for t in &tris.t {
        for k in [0.0, 0.35, 0.5, 0.8] {
            for i in 0..3 {
                let (a, b) = (t[i], t[(i + 1) % 3]);
                let q = p(a.x + (b.x - a.x) * k, a.y + (b.y - a.y) * k);
                if !v.visible(q, 0.0) {
                    continue;
                }
                n.tris += 1;
                let w = v.world(q);
                let hit = |i: usize| {
                    let (s, b) = &segs[i];
                    w.x > b[0] - wt && w.x < b[2] + wt && w.y > b[1] - wt && w.y < b[3] + wt && s.dist(w) <= wt
                };
                if let Some(k) = (0..segs.len()).map(|k| (last + k) % segs.len()).find(|&k| hit(k)) {
                    last = k;
                } else {
                    let d = paths.iter().map(|pa| pa.dist(w)).fold(f64::INFINITY, f64::min) * v.s;
                    return Err(("drawn-off-curve", format!("drawn at pixel ({:.2}, {:.2}), {:.2} px away from the curve (tolerance {:.2} px)", q.x, q.y, d, tol)));
                }
            }
        }
    }
    Ok(n)
}

/// even-odd interior, painted once
pub fn fill(paths: &[Path], tris: &Tris, v: &View, points: &[P], once: bool) -> Result<Counts, (&'static str, String)> {
    let mut n = Counts { points: 0, tris: 0, inside: 0, outside: 0 };
    let tol = paths.iter().flat_map(|pa| pa.segs.iter().map(|s| seg_tol(s, v))).fold(0.0f64, f64::max) + 0.6;
    if tol > 100.0 {
        return Ok(n);
    }
    for &q in points {
        if !v.visible(q, 0.5) {
            continue;
        }
        let w = v.world(q);
        if paths.iter().any(|pa| pa.dist(w) * v.s < tol) {
            continue;
        }
        let inside = paths.iter().map(|pa| pa.winding(w)).sum::<i64>().rem_euclid(2) == 1;
        let (c, edge) = tris.count(q);
        n.points += 1;
        if inside {
            n.inside += 1;
            if c == 0 && !edge {
                return Err(("not-filled", format!("pixel ({:.2}, {:.2}), drawing ({}, {}), is inside and not filled", q.x, q.y, w.x, w.y)));
            }
            if once && c > 1 {
                return Err(("filled-twice", format!("pixel ({:.2}, {:.2}) is covered by {} triangles", q.x, q.y, c)));
            }
        } else {
            n.outside += 1;
            if c > 0 {
                return Err(("filled-outside", format!("pixel ({:.2}, {:.2}), drawing ({}, {}), is outside and filled", q.x, q.y, w.x, w.y)));
            }
        }
    }
    Ok(n)
}
