//! A plan is one simulated execution written out in full: the values, the calls
//! each caller makes, every scheduling decision and every fault. Running a plan
//! draws no random number, so a plan file replays exactly.

pub type P = (f64, f64);

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Pt(P),
    Seg(P, P),
    Circle(P, f64),
    Arc(P, f64, f64, f64),
    Ray(P, P),
    Coef(f64, f64, f64),
    Tri(P, P, P),
    Poly(Vec<P>),
    Pts(Vec<P>),
}

macro_rules! names {
    ($(#[$m:meta])* $vis:vis enum $n:ident { $($v:ident = $s:expr),* $(,)? }) => {
        $(#[$m])* $vis enum $n { $($v),* }
        impl $n {
            pub const ALL: &'static [$n] = &[$($n::$v),*];
            pub fn name(self) -> &'static str { match self { $($n::$v => $s),* } }
            pub fn parse(s: &str) -> Option<$n> { match s { $($s => Some($n::$v),)* _ => None } }
        }
    };
}

names! {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum K {
        Hull = "hull", Sweep = "sweep", Earcut = "earcut", PolyInfo = "polyinfo",
        IsSimple = "issimple", LocPoly = "locpoly", LocTri = "loctri", LocSeg = "locseg",
        LocCircle = "loccircle", LocArc = "locarc", LocRay = "locray", LocLine = "locline",
        Isect = "isect", LineLine = "lineline", LineRay = "lineray", SegRay = "segray",
        ProjLine = "projline", ProjSeg = "projseg", TriInfo = "triinfo", VecOps = "vecops",
        ArcOps = "arcops", PointOps = "pointops", Fmt = "fmt", Dcel = "dcel",
        SwNew = "swnew", SwPush = "swpush", SwQuery = "swquery",
        HullNew = "hullnew", HullQuery = "hullquery", HullDump = "hulldump", HullPush = "hullpush", DcelNew = "dcelnew",
        DcelRemove = "dcelremove", DcelAdd = "dceladd", DcelDump = "dceldump", DcelLink = "dcellink", DcelFmt = "dcelfmt", DcelEq = "dceleq", Make = "make", Equal = "equal", Dump = "dump",
    }
}

names! {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
    pub enum F {
        Top = "numpanic", Seg = "segpanic", Alloc = "allocfail", Cmp = "incomparable",
        Nested = "reenter", Jit = "libm", Write = "write", Clock = "clockjump",
        Sink = "sink", NestedSeg = "reenterseg",
    }
}
pub const NF: usize = 10;

#[derive(Clone, Debug, PartialEq)]
pub struct Fault {
    pub kind: F,
    pub at: u64,
    pub arg: i64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub k: K,
    pub a: Vec<usize>,
    pub faults: Vec<Fault>,
    /// Made with the plan's second number type.
    pub alt: bool,
}
impl Op {
    pub fn new(k: K, a: Vec<usize>) -> Op {
        Op { k, a, faults: vec![], alt: false }
    }
}

names! {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Num { F64 = "f64", F32 = "f32", S64 = "sim64", S32 = "sim32" }
}
names! {
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum Unit { Steps = "steps", Hot = "hot", Ops = "ops", Stall = "stall" }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Slice {
    pub task: usize,
    pub unit: Unit,
    pub n: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ambient {
    pub entropy: u64,
    pub clock: u64,
    pub env: u64,
    pub addr: u64,
    pub ident: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub num: Num,
    /// The number type of the calls marked `~`.
    pub alt: Num,
    pub items: Vec<Item>,
    pub tasks: Vec<Vec<Op>>,
    pub nested: Vec<Op>,
    pub slices: Vec<Slice>,
    pub amb: Ambient,
    /// Step budget of one task; past it the run is declared stuck. 0 = default.
    pub cap: u64,
    /// Use the harness' own Segment2 implementation where an API takes one.
    pub simseg: bool,
    /// Free parameter of the property (iterations, variant, ...).
    pub arg: u64,
}

pub const AMB0: Ambient = Ambient { entropy: 1, clock: 1_700_000_000, env: 0, addr: 0, ident: 0 };

impl Plan {
    pub fn new(prop: &str, seed: u64, num: Num) -> Plan {
        Plan {
            prop: prop.into(),
            seed,
            num,
            alt: Num::F32,
            items: vec![],
            tasks: vec![],
            nested: vec![],
            slices: vec![],
            amb: AMB0.clone(),
            cap: 0,
            simseg: false,
            arg: 0,
        }
    }
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let p = |q: &P| format!("{:?} {:?}", q.0, q.1);
        let ps = |v: &Vec<P>| v.iter().map(|q| format!(" {:?} {:?}", q.0, q.1)).collect::<String>();
        s += &format!("property {}\nseed {}\nnumber {} {}\n", self.prop, self.seed, self.num.name(), self.alt.name());
        s += &format!(
            "ambient {} {} {} {} {}\ncap {}\nsimseg {}\narg {}\n",
            self.amb.entropy, self.amb.clock, self.amb.env, self.amb.addr, self.amb.ident, self.cap,
            self.simseg as u8, self.arg
        );
        for i in &self.items {
            s += &match i {
                Item::Pt(a) => format!("item pt {}\n", p(a)),
                Item::Seg(a, b) => format!("item seg {} {}\n", p(a), p(b)),
                Item::Circle(a, r) => format!("item circle {} {:?}\n", p(a), r),
                Item::Arc(a, r, x, y) => format!("item arc {} {:?} {:?} {:?}\n", p(a), r, x, y),
                Item::Ray(a, b) => format!("item ray {} {}\n", p(a), p(b)),
                Item::Coef(a, b, c) => format!("item coef {:?} {:?} {:?}\n", a, b, c),
                Item::Tri(a, b, c) => format!("item tri {} {} {}\n", p(a), p(b), p(c)),
                Item::Poly(v) => format!("item poly{}\n", ps(v)),
                Item::Pts(v) => format!("item pts{}\n", ps(v)),
            };
        }
        let op = |h: &str, o: &Op| {
            let mut l = format!("{} {}{}", h, o.k.name(), if o.alt { " ~" } else { "" });
            for x in &o.a {
                l += &format!(" {}", x);
            }
            for f in &o.faults {
                l += &format!(" !{}@{}:{}", f.kind.name(), f.at, f.arg);
            }
            l + "\n"
        };
        for o in &self.nested {
            s += &op("nested", o);
        }
        for (t, ops) in self.tasks.iter().enumerate() {
            s += &format!("task {}\n", t);
            for o in ops {
                s += &op("op", o);
            }
        }
        for x in &self.slices {
            s += &format!("slice {} {} {}\n", x.task, x.unit.name(), x.n);
        }
        s
    }
    pub fn parse(text: &str) -> Option<Plan> {
        let mut p = Plan::new("", 0, Num::F64);
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let f = |i: usize| w.get(i).and_then(|x| x.parse::<f64>().ok());
            let u = |i: usize| w.get(i).and_then(|x| x.parse::<u64>().ok());
            let pt = |i: usize| Some((f(i)?, f(i + 1)?));
            let pts = || (2..w.len()).step_by(2).map(|i| pt(i)).collect::<Option<Vec<P>>>();
            let op = || -> Option<Op> {
                let mut o = Op::new(K::parse(w.get(1)?)?, vec![]);
                for x in &w[2..] {
                    if *x == "~" {
                        o.alt = true;
                    } else if let Some(r) = x.strip_prefix('!') {
                        let (n, r) = r.split_once('@')?;
                        let (a, b) = r.split_once(':')?;
                        o.faults.push(Fault { kind: F::parse(n)?, at: a.parse().ok()?, arg: b.parse().ok()? });
                    } else {
                        o.a.push(x.parse().ok()?);
                    }
                }
                Some(o)
            };
            match w[0] {
                "property" => p.prop = w.get(1)?.to_string(),
                "seed" => p.seed = u(1)?,
                "number" => {
                    p.num = Num::parse(w.get(1)?)?;
                    p.alt = w.get(2).map_or(Some(Num::F32), |x| Num::parse(x))?
                }
                "ambient" => {
                    p.amb = Ambient { entropy: u(1)?, clock: u(2)?, env: u(3)?, addr: u(4)?, ident: u(5)? }
                }
                "cap" => p.cap = u(1)?,
                "simseg" => p.simseg = u(1)? != 0,
                "arg" => p.arg = u(1)?,
                "item" => p.items.push(match *w.get(1)? {
                    "pt" => Item::Pt(pt(2)?),
                    "seg" => Item::Seg(pt(2)?, pt(4)?),
                    "circle" => Item::Circle(pt(2)?, f(4)?),
                    "arc" => Item::Arc(pt(2)?, f(4)?, f(5)?, f(6)?),
                    "ray" => Item::Ray(pt(2)?, pt(4)?),
                    "coef" => Item::Coef(f(2)?, f(3)?, f(4)?),
                    "tri" => Item::Tri(pt(2)?, pt(4)?, pt(6)?),
                    "poly" => Item::Poly(pts()?),
                    "pts" => Item::Pts(pts()?),
                    _ => return None,
                }),
                "nested" => p.nested.push(op()?),
                "task" => p.tasks.push(vec![]),
                "op" => p.tasks.last_mut()?.push(op()?),
                "slice" => p.slices.push(Slice { task: u(1)? as usize, unit: Unit::parse(w.get(2)?)?, n: u(3)? }),
                "verdict" | "detail" => {}
                _ => return None,
            }
        }
        Some(p)
    }
    pub fn size(&self) -> usize {
        let it: usize = self
            .items
            .iter()
            .map(|i| match i {
                Item::Poly(v) | Item::Pts(v) => 1 + v.len(),
                _ => 1,
            })
            .sum();
        let ops: usize = self.tasks.iter().flatten().map(|o| 2 + o.a.len() + 2 * o.faults.len()).sum();
        it + ops + self.tasks.len() + self.slices.len() + self.nested.len() + self.arg as usize
    }
}

/// SplitMix64: the only source of randomness in the harness.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed);
        r.u();
        r
    }
    pub fn u(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u() % n
        }
    }
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn f(&mut self) -> f64 {
        (self.u() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
pub fn mix(z: u64) -> u64 {
    let z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    let z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn fnv(h: u64, x: u64) -> u64 {
    let mut h = h;
    for i in 0..8 {
        h = (h ^ ((x >> (8 * i)) & 255)).wrapping_mul(0x100000001b3);
    }
    h
}
