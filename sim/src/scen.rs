//! A scenario: everything that decides one run, and its text form (the replay file).
use crate::rt::Policy;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault { None, Oom(u64), OomNovel, Stall(u64), StallNovel }
#[derive(Clone, Debug)]
pub struct OpSpec { pub id: u32, pub text: String, pub fault: Fault }
#[derive(Clone, Debug)]
pub struct TaskSpec { pub id: usize, pub ops: Vec<OpSpec> }
#[derive(Clone, Debug)]
pub struct Env { pub entropy: u64, pub heap: usize, pub stack: usize, pub cpus: usize, pub jumpy: bool, pub envrand: bool, pub seed: u64 }
impl Env { pub fn reference() -> Env { Env { entropy: 0x5eed, heap: 0, stack: 0, cpus: 4, jumpy: false, envrand: false, seed: 0 } } }
#[derive(Clone, Debug)]
pub struct Scenario {
    pub prop: String, pub seed: u64, pub env: Env, pub out: Vec<(u64, i64)>, pub tail: i64, pub tail_from: u64, pub policy: Policy, pub reps: u32,
    pub head: Vec<String>, pub pool: Vec<String>, pub waves: Vec<Vec<TaskSpec>>, pub plan: Option<Vec<(usize, u32, u64, u32, usize)>>,
}
impl Scenario {
    pub fn new(prop: &str, seed: u64) -> Scenario {
        Scenario { prop: prop.into(), seed, env: Env::reference(), out: vec![], tail: 0, tail_from: 0, policy: Policy::Slice(1000), reps: 1, head: vec![], pool: vec![], waves: vec![], plan: None }
    }
    pub fn ops(&self) -> impl Iterator<Item = &OpSpec> { self.waves.iter().flatten().flat_map(|t| t.ops.iter()) }
    pub fn show(&self) -> String {
        let mut o = format!("ecsim 1\nproperty {}\nseed {}\n", self.prop, self.seed);
        let e = &self.env;
        o += &format!("env {} {} {} {} {} {} {}\n", e.entropy, e.heap, e.stack, e.cpus, e.jumpy as u8, e.envrand as u8, e.seed);
        o += &format!("out {} {}", self.tail, self.tail_from);
        for (n, a) in &self.out { o += &format!(" {}:{}", n, a); }
        let (p, m) = match self.policy { Policy::Boundary(m) => ("boundary", m), Policy::Slice(m) => ("slice", m), Policy::Guard(m) => ("guard", m), Policy::Prio(m) => ("prio", m) };
        o += &format!("\npolicy {} {}\nreps {}\n", p, m, self.reps);
        for h in &self.head { o += &format!("head {}\n", h); }
        for p in &self.pool { o += &format!("pool {}\n", p); }
        for w in &self.waves {
            o += "wave\n";
            for t in w {
                o += &format!("task {}\n", t.id);
                for p in &t.ops {
                    let f = match &p.fault { Fault::None => "-".to_string(), Fault::Oom(n) => format!("oom:{}", n), Fault::OomNovel => "oom:new".into(), Fault::Stall(n) => format!("suspend:{}", n), Fault::StallNovel => "suspend:new".into() };
                    o += &format!("op {} {} {}\n", p.id, f, p.text);
                }
            }
        }
        if let Some(pl) = &self.plan { o += "plan\n"; for d in pl { o += &format!("switch {} {} {} {} {}\n", d.0, d.1, d.2, d.3, d.4); } }
        o + "end\n"
    }
    pub fn parse(s: &str) -> Scenario {
        let mut c = Scenario::new("", 0);
        for l in s.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            let w: Vec<&str> = r.split_whitespace().collect();
            match k {
                "property" => c.prop = r.into(),
                "seed" => c.seed = r.parse().unwrap(),
                "env" => c.env = Env { entropy: w[0].parse().unwrap(), heap: w[1].parse().unwrap(), stack: w[2].parse().unwrap(), cpus: w[3].parse().unwrap(), jumpy: w[4] == "1", envrand: w[5] == "1", seed: w[6].parse().unwrap() },
                "out" => { c.tail = w[0].parse().unwrap(); c.tail_from = w[1].parse().unwrap(); for x in &w[2..] { let (a, b) = x.split_once(':').unwrap(); c.out.push((a.parse().unwrap(), b.parse().unwrap())); } }
                "policy" => { let m = w[1].parse().unwrap(); c.policy = match w[0] { "boundary" => Policy::Boundary(m), "slice" => Policy::Slice(m), "guard" => Policy::Guard(m), _ => Policy::Prio(m) } }
                "reps" => c.reps = r.parse().unwrap(),
                "head" => c.head.push(r.into()),
                "pool" => c.pool.push(r.into()),
                "wave" => c.waves.push(vec![]),
                "task" => c.waves.last_mut().unwrap().push(TaskSpec { id: r.parse().unwrap(), ops: vec![] }),
                "op" => {
                    let mut it = r.splitn(3, ' ');
                    let id = it.next().unwrap().parse().unwrap();
                    let f = it.next().unwrap();
                    let text = it.next().unwrap().to_string();
                    let fault = match f.split_once(':') { None => Fault::None, Some(("oom", "new")) => Fault::OomNovel, Some(("oom", n)) => Fault::Oom(n.parse().unwrap()),
                        Some((_, "new")) => Fault::StallNovel, Some((_, n)) => Fault::Stall(n.parse().unwrap()) };
                    c.waves.last_mut().unwrap().last_mut().unwrap().ops.push(OpSpec { id, text, fault });
                }
                "plan" => c.plan = Some(vec![]),
                "switch" => c.plan.as_mut().unwrap().push((w[0].parse().unwrap(), w[1].parse().unwrap(), w[2].parse().unwrap(), w[3].parse().unwrap(), w[4].parse().unwrap())),
                _ => {}
            }
        }
        c
    }
}
