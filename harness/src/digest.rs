//! One operation of the library on shared inputs, and a digest of every bit it returned.
use crate::gen_::*;
use crate::geom::*;
use crate::lib_api::*;
use crate::rep::catching;
use crate::rng::{Rng, mix};
use cavalier_contours::core::Control;
use cavalier_contours::polyline::*;
use cavalier_contours::shape_algorithms::{Shape, ShapeOffsetOptions};
use cavalier_contours::static_aabb2d_index::StaticAABB2DIndex;

#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn n(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15));
    }
    pub fn f(&mut self, x: f64) {
        // the sign of a NaN is nobody's business
        self.n(if x.is_nan() { 0x7ff8_0000_0000_0001 } else { x.to_bits() });
    }
    pub fn v(&mut self, q: PlineVertex<f64>) {
        self.f(q.x);
        self.f(q.y);
        self.f(q.bulge);
    }
    pub fn pl<S: PlineSource<Num = f64> + ?Sized>(&mut self, l: &S) {
        self.n(l.is_closed() as u64 + 2 * l.vertex_count() as u64);
        for i in 0..l.vertex_count() {
            self.v(l.at(i));
        }
    }
    pub fn opt<S: PlineSource<Num = f64>>(&mut self, l: &Option<S>) {
        match l {
            Some(l) => self.pl(l),
            None => self.n(77),
        }
    }
    pub fn view(&mut self, d: &PlineViewData<f64>) {
        self.n(d.start_index as u64);
        self.n(d.end_index_offset as u64);
        self.v(d.updated_start);
        self.f(d.updated_end_bulge);
        self.f(d.end_point.x);
        self.f(d.end_point.y);
        self.n(d.inverted_direction as u64);
    }
}

/// inputs shared by all threads
pub struct World {
    pub pls: Vec<PL>,
    pub approx: Vec<StaticAABB2DIndex<f64>>,
    pub exact: Vec<StaticAABB2DIndex<f64>>,
    pub shapes: Vec<Shape<f64>>,
    pub size: f64,
}
impl World {
    pub fn new(paths: &[Path], shapes: Vec<Shape<f64>>) -> World {
        let pls: Vec<PL> = paths.iter().map(|q| to_pl(&q.v, q.closed)).collect();
        World {
            approx: pls.iter().map(|l| l.create_approx_aabb_index()).collect(),
            exact: pls.iter().map(|l| l.create_aabb_index()).collect(),
            size: paths.iter().map(|q| q.diag()).fold(1e-3, f64::max),
            pls,
            shapes,
        }
    }
    /// every bit of the shared inputs
    pub fn state(&self) -> u64 {
        let mut h = H(1);
        for l in &self.pls {
            h.pl(l);
        }
        for ix in self.approx.iter().chain(&self.exact) {
            index_state(&mut h, ix);
        }
        for s in &self.shapes {
            shape_state(&mut h, s);
        }
        h.0
    }
}
pub fn index_state(h: &mut H, ix: &StaticAABB2DIndex<f64>) {
    h.n(ix.count() as u64);
    h.n(ix.node_size() as u64);
    for b in ix.all_boxes() {
        h.f(b.min_x);
        h.f(b.min_y);
        h.f(b.max_x);
        h.f(b.max_y);
    }
    for i in ix.all_box_indices() {
        h.n(*i as u64);
    }
    for i in ix.level_bounds() {
        h.n(*i as u64);
    }
}
pub fn shape_state(h: &mut H, s: &Shape<f64>) {
    for l in s.ccw_plines.iter().chain(&s.cw_plines) {
        h.pl(&l.polyline);
        index_state(h, &l.spatial_index);
    }
    h.n(s.ccw_plines.len() as u64);
    index_state(h, &s.plines_index);
}

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub kind: usize,
    i: usize,
    j: usize,
    f: [f64; 3],
    q: P,
    flag: bool,
}
pub const KINDS: usize = 21;
/// digest of an operation that panicked
pub const FAILED: u64 = 0xDEAD;
impl Op {
    pub fn new(r: &mut Rng, w: &World) -> Op {
        let n = w.pls.len();
        let kind = r.below(KINDS);
        let b = w.pls[0].extents().map(|e| p(e.min_x + (e.max_x - e.min_x) * r.f(), e.min_y + (e.max_y - e.min_y) * r.f())).unwrap_or(p(0.0, 0.0));
        Op {
            kind,
            i: r.below(n),
            j: r.below(n),
            f: [r.f(), r.f(), r.sign() * if r.chance(0.3) { r.int(1, 6) as f64 * 0.25 } else { w.size * r.logrange(0.005, 0.3) }],
            q: if r.chance(0.3) { b } else { p(r.range(-6.0, 6.0), r.range(-6.0, 6.0)) },
            flag: r.chance(0.5),
        }
    }
    /// true when a panic is part of the answer (repeats, documented preconditions)
    pub fn run(&self, w: &World) -> u64 {
        match catching(|| self.exec(w)) {
            Ok(h) => h,
            Err(_) => FAILED,
        }
    }
    fn exec(&self, w: &World) -> u64 {
        let mut h = H(self.kind as u64);
        let (l, m) = (&w.pls[self.i], &w.pls[self.j]);
        let ix = if self.flag { &w.approx[self.i] } else { &w.exact[self.i] };
        let d = self.f[2];
        match self.kind {
            0 => {
                h.f(l.area());
                h.f(l.path_length());
                h.n(l.orientation() as u64);
                if let Some(e) = l.extents() {
                    h.f(e.min_x);
                    h.f(e.min_y);
                    h.f(e.max_x);
                    h.f(e.max_y);
                }
            }
            1 => h.n(l.winding_number(v2(self.q)) as u64),
            2 => {
                if let Some(c) = l.closest_point(v2(self.q), 1e-5) {
                    h.n(c.seg_start_index as u64);
                    h.f(c.seg_point.x);
                    h.f(c.seg_point.y);
                    h.f(c.distance);
                    h.opt(&l.rotate_start(c.seg_start_index, c.seg_point, 1e-5));
                }
            }
            3 => match l.find_point_at_path_length(self.f[0] * l.path_length()) {
                Ok((i, q)) => {
                    h.n(i as u64);
                    h.f(q.x);
                    h.f(q.y);
                }
                Err(e) => h.f(e),
            },
            4 => h.opt(&l.remove_repeat_pos(1e-5)),
            5 => h.opt(&l.remove_redundant(1e-5)),
            6 => h.opt(&l.arcs_to_approx_lines(1e-2 * w.size)),
            7 => index_state(&mut h, &if self.flag { l.create_approx_aabb_index() } else { l.create_aabb_index() }),
            8 => {
                let (a, b) = (self.q.x - self.f[0], self.q.y - self.f[1]);
                for i in ix.query(a, b, a + 2.0, b + 2.0) {
                    h.n(i as u64);
                }
            }
            9 | 10 => {
                let inc = [SelfIntersectsInclude::All, SelfIntersectsInclude::Local, SelfIntersectsInclude::Global][(self.f[0] * 3.0) as usize];
                let o = PlineSelfIntersectOptions { aabb_index: self.flag.then_some(&w.approx[self.i]), pos_equal_eps: 1e-5, include: inc };
                let mut vis = Vis(H(9), if self.kind == 10 { 2 } else { usize::MAX });
                l.visit_self_intersects_opt(&mut vis, &o);
                h.n(vis.0.0);
            }
            11 => {
                let o = FindIntersectsOptions { pline1_aabb_index: self.flag.then_some(ix), pos_equal_eps: 1e-5 };
                let r = l.find_intersects_opt(m, &o);
                for x in &r.basic_intersects {
                    h.n(x.start_index1 as u64);
                    h.n(x.start_index2 as u64);
                    h.f(x.point.x);
                    h.f(x.point.y);
                }
                for x in &r.overlapping_intersects {
                    h.n(x.start_index1 as u64);
                    h.n(x.start_index2 as u64);
                    h.f(x.point1.x);
                    h.f(x.point1.y);
                    h.f(x.point2.x);
                    h.f(x.point2.y);
                }
            }
            12..=14 => {
                let o = PlineOffsetOptions { aabb_index: self.flag.then_some(&w.approx[self.i]), handle_self_intersects: self.f[0] < 0.3, ..Default::default() };
                for r in l.parallel_offset_opt(d, &o) {
                    h.pl(&r);
                }
            }
            15..=17 => {
                let op = [BooleanOp::Or, BooleanOp::And, BooleanOp::Not, BooleanOp::Xor][(self.f[0] * 4.0) as usize];
                let o = PlineBooleanOptions { pline1_aabb_index: self.flag.then_some(&w.approx[self.i]), ..Default::default() };
                let r = l.boolean_opt(m, op, &o);
                h.n(r.result_info as u64);
                h.n(r.pos_plines.len() as u64);
                for x in r.pos_plines.iter().chain(&r.neg_plines) {
                    h.pl(&x.pline);
                    for s in &x.subslices {
                        h.view(&s.view_data);
                        h.n(s.source_is_pline1 as u64 + 2 * s.overlapping as u64);
                    }
                }
            }
            18 => {
                if !w.shapes.is_empty() {
                    let s = &w.shapes[self.i % w.shapes.len()];
                    shape_state(&mut h, &s.parallel_offset(d, ShapeOffsetOptions::default()));
                }
            }
            19 => shape_state(&mut h, &Shape::from_plines(vec![l.clone(), m.clone()])),
            _ => {
                let len = l.path_length();
                let (mut s, mut t) = (self.f[0], self.f[1]);
                if s > t {
                    std::mem::swap(&mut s, &mut t);
                }
                if let (Ok((i, a)), Ok((j, b))) = (l.find_point_at_path_length(s * len), l.find_point_at_path_length(t * len)) {
                    if l.vertex_count() > 1 {
                        if let Some(v) = PlineViewData::from_slice_points(l, a, i, b, j, 1e-5) {
                            h.view(&v);
                            h.pl(&v.view(l));
                        }
                    }
                }
            }
        }
        h.0
    }
}
struct Vis(H, usize);
impl PlineIntersectVisitor<f64, Control> for Vis {
    fn visit_basic_intr(&mut self, x: PlineBasicIntersect<f64>) -> Control {
        self.0.n(x.start_index1 as u64);
        self.0.n(x.start_index2 as u64);
        self.0.f(x.point.x);
        self.0.f(x.point.y);
        self.more()
    }
    fn visit_overlapping_intr(&mut self, x: PlineOverlappingIntersect<f64>) -> Control {
        self.0.n(x.start_index1 as u64);
        self.0.n(x.start_index2 as u64);
        self.0.f(x.point1.x);
        self.0.f(x.point2.y);
        self.more()
    }
}
impl Vis {
    fn more(&mut self) -> Control {
        self.1 -= 1;
        if self.1 == 0 { Control::Break(()) } else { Control::Continue }
    }
}

/// a few related polylines: general, grid (shared edges), queries only (wild), a shape
pub fn world(r: &mut Rng) -> World {
    let mut ps = vec![];
    for k in 0..4 {
        ps.push(match k {
            0 => closed(r, Style::General, 1e-3),
            1 | 2 => closed(r, Style::Grid, 1e-3),
            _ if r.chance(0.15) => {
                // spatial indexes of several levels
                let n = r.logrange(17.0, if cfg!(miri) { 40.0 } else { 600.0 }) as usize;
                let (a, w, b) = (r.range(0.05, 0.3), r.int(2, 9) as f64, r.pick(&[0.0, 0.2, -0.3]));
                let v = (0..n).map(|k| {
                    let t = k as f64 / n as f64 * std::f64::consts::TAU;
                    let q = polar(p(0.5, 0.0), 4.0 * (1.0 + a * (w * t).sin()), t);
                    [q.x, q.y, b]
                });
                Path::new(v.collect(), r.chance(0.7))
            }
            _ if r.chance(0.5) => open(r, Style::General, true, 1e-3),
            _ => {
                // repeats and self crossings
                let w = wild(r);
                if w.v.len() > 30 || w.v.len() < 2 { open(r, Style::Grid, true, 1e-3) } else { w }
            }
        });
    }
    let base = rect(-9.0, -9.0, 9.0, 9.0);
    let mut loops = vec![to_pl(&base, true)];
    for q in &ps[1..3] {
        let mut l = to_pl(&q.v, true);
        if l.orientation() == PlineOrientation::CounterClockwise {
            l.invert_direction_mut();
        }
        loops.push(l);
    }
    World::new(&ps, vec![Shape::from_plines(loops)])
}
