//! Conversions between the harness representation and the library's polylines.
use crate::geom::*;
use cavalier_contours::core::math::Vector2;
use cavalier_contours::polyline::*;

pub type PL = Polyline<f64>;

pub fn to_pl(v: &[V], closed: bool) -> PL {
    let mut r = Polyline::with_capacity(v.len(), closed);
    for q in v {
        r.add(q[0], q[1], q[2]);
    }
    r
}
pub fn to_pl32(v: &[V], closed: bool) -> Polyline<f32> {
    let mut r = Polyline::with_capacity(v.len(), closed);
    for q in v {
        r.add(q[0] as f32, q[1] as f32, q[2] as f32);
    }
    r
}
pub fn verts<S: PlineSource<Num = f64> + ?Sized>(s: &S) -> Vec<V> {
    // read through the indexed accessor only
    (0..s.vertex_count())
        .map(|i| {
            let q = s.at(i);
            [q.x, q.y, q.bulge]
        })
        .collect()
}
pub fn path_of<S: PlineSource<Num = f64> + ?Sized>(s: &S) -> Path {
    Path::new(verts(s), s.is_closed())
}
pub fn vv(v: V) -> PlineVertex<f64> {
    PlineVertex::new(v[0], v[1], v[2])
}
pub fn v2(q: P) -> Vector2<f64> {
    Vector2::new(q.x, q.y)
}
pub fn pt(q: Vector2<f64>) -> P {
    p(q.x, q.y)
}
pub fn text(v: &[V], closed: bool) -> String {
    let mut s = String::from(if closed { "closed[" } else { "open[" });
    for (i, q) in v.iter().enumerate() {
        if i > 0 {
            s.push(' ');
        }
        s.push_str(&format!("({:?},{:?},{:?})", q[0], q[1], q[2]));
    }
    s.push(']');
    s
}
/// parse the format written by `text`
pub fn parse(s: &str) -> Option<(Vec<V>, bool)> {
    let s = s.trim();
    let closed = s.starts_with("closed[");
    let b = s.split_once('[')?.1.strip_suffix(']')?;
    let mut v = vec![];
    for t in b.split(' ').filter(|t| !t.is_empty()) {
        let t = t.strip_prefix('(')?.strip_suffix(')')?;
        let n: Vec<f64> = t.split(',').map(|x| x.parse().unwrap()).collect();
        v.push([n[0], n[1], n[2]]);
    }
    Some((v, closed))
}
pub fn ptext(pa: &Path) -> String {
    text(&pa.v, pa.closed)
}
pub fn finite<S: PlineSource<Num = f64> + ?Sized>(s: &S) -> bool {
    verts(s).iter().all(|v| v.iter().all(|x| x.is_finite()))
}
