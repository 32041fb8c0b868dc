//! The scheduler: decides every interleaving, the simulated clock and the injected thread faults.
use std::cell::Cell;
use std::sync::{Arc, Condvar, Mutex, MutexGuard, PoisonError};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};

// ------------------------------------------------------------------ configuration

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub enum Strategy {
    /// At each point switch away with probability `permille`/1000.
    Random { seed: u64, permille: u32 },
    /// Probabilistic concurrency testing: random priorities, `depth` priority-change points among
    /// the first `len` points.
    Pct { seed: u64, depth: u32, len: u64 },
    /// Run the current thread until it blocks or ends, except at the given decision numbers.
    Explicit { overrides: Vec<(u64, usize)> },
}

/// Thread faults: `point` counts the scheduling points of that thread.
#[derive(Clone, Debug)]
pub enum ThreadFault {
    /// The thread dies (panics) at that point.
    Kill { thread: usize, point: u64 },
    /// The thread is not scheduled for `steps` decisions (unless nobody else can run).
    Stall { thread: usize, point: u64, steps: u64 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub strategy: Strategy,
    pub faults: Vec<ThreadFault>,
    pub max_steps: u64,
    /// preempt at heap allocations (per mille of allocations that become scheduling points)
    pub alloc_permille: u32,
    /// spurious failures of compare_exchange_weak and spurious condvar wake-ups (per mille)
    pub spurious_permille: u32,
    pub seed: u64,
    pub clock: Clock,
}

/// Behaviour of the simulated clock.
#[derive(Clone, Debug)]
pub enum Clock {
    /// advances by this many ns per reading
    Step(u64),
    /// never advances by itself
    Stalled,
    /// jumps by pseudo-random amounts (monotonic clock forward only, wall clock both ways)
    Jumpy(u64),
}

/// Kinds of scheduling points (also what is hashed into the interleaving signature).
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub enum Point {
    Op = 1,
    Lock = 2,
    InLock = 3,
    Unlock = 4,
    Blocked = 5,
    Atomic = 6,
    Alloc = 7,
    Clock = 8,
    Callback = 9,
    Spawn = 10,
    Sys = 11,
    Yield = 12,
}

/// The payload of an injected thread death.
pub struct SimKill;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Deadlock(String),
    StepLimit,
}

#[derive(Clone, Debug)]
pub struct Report {
    pub end: End,
    pub steps: u64,
    pub decisions: u64,
    pub switches: u64,
    pub overrides: Vec<(u64, usize)>,
    pub signature: u64,
    pub kills_fired: u64,
    pub stalls_fired: u64,
    pub spurious_fired: u64,
    pub points: Vec<u64>,
    pub kinds: [u64; 16],
    pub blocks: u64,
    pub sim_ns: u64,
}

// ------------------------------------------------------------------ state

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(usize),
    Sleeping(u64),
    Done,
}

struct Parker {
    flag: Mutex<bool>,
    cv: Condvar,
}
impl Parker {
    fn new() -> Arc<Self> {
        Arc::new(Parker { flag: Mutex::new(false), cv: Condvar::new() })
    }
    fn wake(&self) {
        *lk(&self.flag) = true;
        self.cv.notify_one();
    }
    fn wait(&self) {
        let mut g = lk(&self.flag);
        while !*g {
            g = self.cv.wait(g).unwrap_or_else(PoisonError::into_inner);
        }
        *g = false;
    }
}

struct Th {
    status: Status,
    parker: Arc<Parker>,
    points: u64,
    stall_until: u64,
    prio: u64,
}

struct State {
    cfg: Config,
    threads: Vec<Th>,
    cur: usize,
    steps: u64,
    decisions: u64,
    switches: u64,
    overrides: Vec<(u64, usize)>,
    sig: u64,
    rng: u64,
    frng: u64,
    change_points: Vec<u64>,
    objs: Vec<usize>,
    ended: Option<End>,
    kills_fired: u64,
    stalls_fired: u64,
    spurious_fired: u64,
    kinds: [u64; 16],
    blocks: u64,
    started: bool,
    /// how many of the threads are clients (the first ones); the others were spawned by the code
    /// under test and may stay behind, idle, when the clients are done
    clients: usize,
    /// yields since a client last got on with its work
    spins: u64,
}

/// More yields than this without any progress are a hang.
const SPIN_LIMIT: u64 = 200_000;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static ALLOC_PM: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<Option<State>> = Mutex::new(None);
static MAIN: (Mutex<bool>, Condvar) = (Mutex::new(false), Condvar::new());
static CLOCK_NS: AtomicU64 = AtomicU64::new(1_000_000_000);
static WALL_OFF: AtomicU64 = AtomicU64::new(1_700_000_000_000_000_000);
static CLOCK_MODE: Mutex<Clock> = Mutex::new(Clock::Step(1_000));
static CLOCK_RNG: AtomicU64 = AtomicU64::new(1);
static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
static SEQ: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
    static IN_RT: Cell<bool> = const { Cell::new(false) };
    static ALLOC_RNG: Cell<u64> = const { Cell::new(0) };
    static NO_PREEMPT: Cell<u32> = const { Cell::new(0) };
}

fn lk<T>(m: &Mutex<T>) -> MutexGuard<'_, T> {
    m.lock().unwrap_or_else(PoisonError::into_inner)
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

struct RtGuard(bool);
impl RtGuard {
    fn enter() -> Self {
        RtGuard(IN_RT.with(|c| c.replace(true)))
    }
}
impl Drop for RtGuard {
    fn drop(&mut self) {
        IN_RT.with(|c| c.set(self.0));
    }
}

/// The simulated thread running here, if any.
pub fn current() -> Option<usize> {
    if !ACTIVE.load(Ordering::Relaxed) {
        return None;
    }
    let c = CUR.try_with(|c| c.get()).unwrap_or(usize::MAX);
    if c == usize::MAX { None } else { Some(c) }
}

/// Global event sequence number (stamps invocations and returns in histories).
pub fn seq() -> u64 {
    SEQ.fetch_add(1, Ordering::SeqCst)
}

/// Runs `f` without any scheduling point inside.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NO_PREEMPT.with(|c| c.set(c.get() - 1));
        }
    }
    NO_PREEMPT.with(|c| c.set(c.get() + 1));
    let _g = G;
    f()
}

fn suppressed() -> bool {
    NO_PREEMPT.with(|c| c.get()) > 0
}

impl State {
    fn obj(&mut self, addr: usize) -> u64 {
        if addr == 0 {
            return 0;
        }
        if let Some(i) = self.objs.iter().position(|&a| a == addr) {
            return i as u64 + 1;
        }
        self.objs.push(addr);
        self.objs.len() as u64
    }

    fn hash(&mut self, v: u64) {
        self.sig ^= v;
        self.sig = self.sig.wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
    }

    /// Chooses the next thread; `me` is the one giving up control (still ready or not).
    fn clients_done(&self) -> bool {
        self.threads[..self.clients].iter().all(|t| t.status == Status::Done)
    }

    fn pick(&mut self, me: Option<usize>) -> Option<usize> {
        loop {
            // whoever has slept long enough is ready
            if self.threads.iter().any(|t| matches!(t.status, Status::Sleeping(_))) {
                let now = CLOCK_NS.load(Ordering::SeqCst);
                for t in &mut self.threads {
                    if let Status::Sleeping(v) = t.status {
                        if v <= now {
                            t.status = Status::Ready;
                        }
                    }
                }
            }
            let mut ready: Vec<usize> = (0..self.threads.len())
                .filter(|&i| self.threads[i].status == Status::Ready)
                .collect();
            if ready.is_empty() && self.clients_done() {
                return None;
            }
            if ready.is_empty() {
                // jump the clock to the next sleeper
                let mut best: Option<u64> = None;
                for t in &self.threads {
                    if let Status::Sleeping(u) = t.status {
                        best = Some(best.map_or(u, |b| b.min(u)));
                    }
                }
                let Some(u) = best else { return None };
                if CLOCK_NS.load(Ordering::SeqCst) < u {
                    CLOCK_NS.store(u, Ordering::SeqCst);
                }
                for t in &mut self.threads {
                    if let Status::Sleeping(v) = t.status {
                        if v <= u {
                            t.status = Status::Ready;
                        }
                    }
                }
                continue;
            }
            // stalled threads are left out while somebody else can run
            let d = self.decisions;
            let awake: Vec<usize> =
                ready.iter().copied().filter(|&i| self.threads[i].stall_until <= d).collect();
            if !awake.is_empty() {
                ready = awake;
            }
            let me_ready = me.filter(|m| ready.contains(m));
            let default = me_ready.unwrap_or(ready[0]);
            // a sleeper may wake while others are still busy: time passes at any speed
            let random = matches!(self.cfg.strategy, Strategy::Random { .. });
            let explicit = matches!(self.cfg.strategy, Strategy::Explicit { .. });
            if random && (self.rng.wrapping_add(self.decisions) >> 17) % 4 == 0 || explicit {
                ready.extend((0..self.threads.len()).filter(|&i| {
                    matches!(self.threads[i].status, Status::Sleeping(_))
                }));
            }
            if ready.len() == 1 {
                // the explicit schedule must number decisions the same way: count it
                self.decisions += 1;
                return Some(ready[0]);
            }
            let n = self.decisions;
            self.decisions += 1;
            let choice = match &self.cfg.strategy {
                Strategy::Random { permille, .. } => {
                    let pm = *permille as u64;
                    let r = splitmix(&mut self.rng);
                    if me_ready.is_some() && r % 1000 >= pm {
                        default
                    } else {
                        ready[(splitmix(&mut self.rng) % ready.len() as u64) as usize]
                    }
                }
                Strategy::Pct { .. } => {
                    if self.change_points.contains(&n) {
                        if let Some(m) = me {
                            // lowest priority so far
                            let low = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                            self.threads[m].prio = low.saturating_sub(1);
                        }
                    }
                    *ready.iter().max_by_key(|&&i| self.threads[i].prio).unwrap()
                }
                Strategy::Explicit { overrides } => {
                    match overrides.iter().find(|(s, _)| *s == n) {
                        Some(&(_, t)) if ready.contains(&t) => t,
                        _ => default,
                    }
                }
            };
            if choice != default {
                self.overrides.push((n, choice));
            }
            if let Status::Sleeping(u) = self.threads[choice].status {
                if CLOCK_NS.load(Ordering::SeqCst) < u {
                    CLOCK_NS.store(u, Ordering::SeqCst);
                }
                self.threads[choice].status = Status::Ready;
            }
            return Some(choice);
        }
    }

    fn finish(&mut self, e: End) {
        if self.ended.is_none() {
            self.ended = Some(e);
        }
        *lk(&MAIN.0) = true;
        MAIN.1.notify_all();
    }
}

/// Parks the calling thread for ever (the run has ended, its process is about to be discarded).
fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

fn switch_from(me: usize, mut g: MutexGuard<'_, Option<State>>) {
    let st = g.as_mut().unwrap();
    if st.ended.is_some() {
        drop(g);
        park_forever();
    }
    let mine_ready = st.threads[me].status == Status::Ready;
    let next = st.pick(Some(me).filter(|_| mine_ready));
    match next {
        None if st.clients_done() => {
            st.finish(End::Done);
            drop(g);
            park_forever();
        }
        None => {
            let who: Vec<String> = st
                .threads
                .iter()
                .enumerate()
                .filter(|(_, t)| t.status != Status::Done)
                .map(|(i, t)| format!("thread {i} {:?}", match t.status {
                    Status::Blocked(a) => {
                        let k = st.objs.iter().position(|&o| o == a).map_or(0, |p| p + 1);
                        format!("waits for lock/condition #{k}")
                    }
                    ref s => format!("{s:?}"),
                }))
                .collect();
            st.finish(End::Deadlock(who.join("; ")));
            drop(g);
            park_forever();
        }
        Some(n) if n == me => {}
        Some(n) => {
            st.switches += 1;
            st.hash(0x5157_0000 + n as u64);
            st.cur = n;
            let p = st.threads[n].parker.clone();
            let mine = st.threads[me].parker.clone();
            drop(g);
            p.wake();
            mine.wait();
        }
    }
}

fn point_inner(kind: Point, addr: usize, can_kill: bool) {
    let Some(me) = current() else { return };
    if IN_RT.with(|c| c.get()) {
        return;
    }
    if suppressed() {
        return;
    }
    let unwinding = std::thread::panicking();
    if unwinding {
        return;
    }
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let Some(st) = g.as_mut() else { return };
    st.steps += 1;
    st.kinds[kind as usize & 15] += 1;
    let o = st.obj(addr);
    st.hash((me as u64) << 32 | (kind as u64) << 16 | o);
    match kind {
        Point::Yield => st.spins += 1,
        Point::Op => st.spins = 0,
        _ => {}
    }
    if st.steps > st.cfg.max_steps || st.spins > SPIN_LIMIT {
        st.finish(if st.clients_done() { End::Done } else { End::StepLimit });
        drop(g);
        park_forever();
    }
    let p = st.threads[me].points;
    st.threads[me].points += 1;
    let mut kill = false;
    for i in 0..st.cfg.faults.len() {
        match st.cfg.faults[i] {
            ThreadFault::Kill { thread, point } if thread == me && can_kill && p >= point => {
                kill = true;
                st.cfg.faults[i] = ThreadFault::Kill { thread: usize::MAX, point: 0 };
                break;
            }
            ThreadFault::Stall { thread, point, steps } if thread == me && p == point => {
                st.threads[me].stall_until = st.decisions + steps;
                st.stalls_fired += 1;
            }
            _ => {}
        }
    }
    if kill {
        st.kills_fired += 1;
        st.hash(0xDEAD);
        drop(g);
        drop(rt);
        std::panic::panic_any(SimKill);
    }
    switch_from(me, g);
    drop(rt);
}

/// Whether a death may strike while a guard is being dropped. (A panic that comes out of a
/// destructor makes the compiler forget the value just returned: those who count memory say no.)
static DROP_KILLS: AtomicBool = AtomicBool::new(true);
pub fn set_drop_kills(on: bool) {
    DROP_KILLS.store(on, Ordering::SeqCst);
}
/// A scheduling point at which an injected death may strike.
pub fn point(kind: Point, addr: usize) {
    point_inner(kind, addr, !matches!(kind, Point::Unlock) || DROP_KILLS.load(Ordering::Relaxed));
}
/// A client has got on with its work (no scheduling point).
pub fn progress() {
    if let Some(st) = lk(&STATE).as_mut() {
        st.spins = 0;
    }
}
/// A scheduling point that never kills.
pub fn soft_point(kind: Point, addr: usize) {
    point_inner(kind, addr, false);
}

/// Called by the simulator's allocator.
#[inline]
pub fn alloc_point() {
    if !ACTIVE.load(Ordering::Relaxed) {
        return;
    }
    let pm = ALLOC_PM.load(Ordering::Relaxed);
    if pm == 0 {
        return;
    }
    if CUR.try_with(|c| c.get()).unwrap_or(usize::MAX) == usize::MAX {
        return;
    }
    if IN_RT.try_with(|c| c.get()).unwrap_or(true) {
        return;
    }
    let fire = ALLOC_RNG.with(|c| {
        let mut v = c.get();
        let r = splitmix(&mut v);
        c.set(v);
        r % 1000 < pm
    });
    if fire {
        point_inner(Point::Alloc, 0, false);
    }
}

/// Blocks the current simulated thread until `wake(addr)`.
pub fn block(addr: usize) {
    let Some(me) = current() else {
        panic!("simulated primitive would block outside the simulation");
    };
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let st = g.as_mut().unwrap();
    st.steps += 1;
    st.blocks += 1;
    st.kinds[Point::Blocked as usize] += 1;
    let o = st.obj(addr);
    st.hash((me as u64) << 32 | (Point::Blocked as u64) << 16 | o);
    st.threads[me].status = Status::Blocked(addr);
    switch_from(me, g);
    drop(rt);
}

/// Makes the threads blocked on `addr` ready again.
pub fn wake(addr: usize) {
    if current().is_none() {
        return;
    }
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    if let Some(st) = g.as_mut() {
        for t in &mut st.threads {
            if t.status == Status::Blocked(addr) {
                t.status = Status::Ready;
            }
        }
    }
    drop(g);
    drop(rt);
}
/// Makes one thread blocked on `addr` ready (the scheduler's choice).
pub fn wake_one(addr: usize) {
    if current().is_none() {
        return;
    }
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    if let Some(st) = g.as_mut() {
        let c: Vec<usize> = (0..st.threads.len())
            .filter(|&i| st.threads[i].status == Status::Blocked(addr))
            .collect();
        if !c.is_empty() {
            let i = c[(splitmix(&mut st.frng) % c.len() as u64) as usize];
            st.threads[i].status = Status::Ready;
        }
    }
    drop(g);
    drop(rt);
}

/// A seeded coin for spurious events.
pub fn spurious() -> bool {
    if current().is_none() {
        return false;
    }
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let mut fired = false;
    if let Some(st) = g.as_mut() {
        if st.cfg.spurious_permille > 0
            && splitmix(&mut st.frng) % 1000 < st.cfg.spurious_permille as u64
        {
            st.spurious_fired += 1;
            fired = true;
        }
    }
    drop(g);
    drop(rt);
    fired
}

pub fn sleep_ns(ns: u64) {
    let Some(me) = current() else {
        CLOCK_NS.fetch_add(ns, Ordering::SeqCst);
        return;
    };
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let st = g.as_mut().unwrap();
    let until = CLOCK_NS.load(Ordering::SeqCst) + ns;
    st.threads[me].status = Status::Sleeping(until);
    switch_from(me, g);
    drop(rt);
}

// ------------------------------------------------------------------ clock

pub fn set_clock(c: Clock) {
    if let Clock::Jumpy(s) = c {
        CLOCK_RNG.store(s, Ordering::SeqCst);
    }
    *lk(&CLOCK_MODE) = c;
}
pub fn clock_reads() -> u64 {
    CLOCK_READS.load(Ordering::SeqCst)
}
/// Simulated time goes by at once: what the caller waits for takes this long.
pub fn pass_ns(ns: u64) {
    CLOCK_NS.fetch_add(ns, Ordering::SeqCst);
}
pub fn now_ns_quiet() -> u64 {
    CLOCK_NS.load(Ordering::SeqCst)
}
fn tick(wall: bool) -> u64 {
    let _rt = RtGuard::enter();
    CLOCK_READS.fetch_add(1, Ordering::SeqCst);
    let mode = lk(&CLOCK_MODE).clone();
    match mode {
        Clock::Step(n) => {
            CLOCK_NS.fetch_add(n, Ordering::SeqCst);
        }
        Clock::Stalled => {}
        Clock::Jumpy(_) => {
            let mut s = CLOCK_RNG.load(Ordering::SeqCst);
            let r = splitmix(&mut s);
            let r2 = splitmix(&mut s);
            CLOCK_RNG.store(s, Ordering::SeqCst);
            let d = match r % 5 {
                0 => 0,
                1 => r2 % 1_000,
                2 => r2 % 1_000_000_000,
                3 => r2 % 86_400_000_000_000,          // a day
                _ => r2 % 31_536_000_000_000_000 * 5,  // years
            };
            let cur = CLOCK_NS.load(Ordering::SeqCst);
            // keep the monotonic clock below its overflow
            if cur.saturating_add(d) < 1 << 62 {
                CLOCK_NS.store(cur + d, Ordering::SeqCst);
            }
            if wall && r % 2 == 0 {
                let back = r2 % 31_536_000_000_000_000;
                let w = WALL_OFF.load(Ordering::SeqCst);
                WALL_OFF.store(w.saturating_sub(back), Ordering::SeqCst);
            }
        }
    }
    CLOCK_NS.load(Ordering::SeqCst)
}
pub fn read_clock() -> u64 {
    soft_point(Point::Clock, 0);
    tick(false)
}
pub fn read_wall() -> u64 {
    soft_point(Point::Clock, 0);
    let n = tick(true);
    n.saturating_add(WALL_OFF.load(Ordering::SeqCst))
}

// ------------------------------------------------------------------ threads

/// Registers a thread spawned by a simulated thread; returns its id.
pub fn register() -> usize {
    let rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let st = g.as_mut().unwrap();
    let id = st.threads.len();
    let prio = splitmix(&mut st.rng) | 1 << 40;
    st.threads.push(Th {
        status: Status::Ready,
        parker: Parker::new(),
        points: 0,
        stall_until: 0,
        prio,
    });
    drop(g);
    drop(rt);
    id
}

/// Body of a simulated thread: waits to be scheduled, runs, hands over.
pub fn enter_thread(id: usize, f: impl FnOnce()) {
    CUR.with(|c| c.set(id));
    {
        let _rt = RtGuard::enter();
        let (p, seed) = {
            let g = lk(&STATE);
            let st = g.as_ref().unwrap();
            (st.threads[id].parker.clone(), st.cfg.seed)
        };
        ALLOC_RNG.with(|c| c.set(seed ^ (id as u64 + 1).wrapping_mul(0xA24B_AED4_963E_E407)));
        p.wait();
    }
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let _rt = RtGuard::enter();
    let mut g = lk(&STATE);
    let st = g.as_mut().unwrap();
    st.threads[id].status = Status::Done;
    st.hash(0xD0_0000 + id as u64);
    // joiners block on 1 + id
    let addr = join_addr(id);
    for t in &mut st.threads {
        if t.status == Status::Blocked(addr) {
            t.status = Status::Ready;
        }
    }
    CUR.with(|c| c.set(usize::MAX));
    if st.threads.iter().all(|t| t.status == Status::Done) {
        st.finish(End::Done);
        return;
    }
    match st.pick(None) {
        Some(n) => {
            st.cur = n;
            st.switches += 1;
            st.hash(0x5157_0000 + n as u64);
            let p = st.threads[n].parker.clone();
            drop(g);
            p.wake();
        }
        None if st.clients_done() => st.finish(End::Done),
        None => {
            st.finish(End::Deadlock(format!("thread {id} ended and nobody left can run")));
        }
    }
}

pub fn join_addr(id: usize) -> usize {
    usize::MAX - 1 - id
}
pub fn is_done(id: usize) -> bool {
    let _rt = RtGuard::enter();
    let g = lk(&STATE);
    g.as_ref().map_or(true, |st| st.threads[id].status == Status::Done)
}
/// Blocks until thread `id` is done.
pub fn join(id: usize) {
    point(Point::Yield, 0);
    while !is_done(id) {
        block(join_addr(id));
    }
}

/// Runs the given bodies as simulated threads 0.. and returns when all are done, when nobody can
/// run, or when the step limit is reached.
pub fn run(cfg: Config, bodies: Vec<Box<dyn FnOnce() + Send>>) -> Report {
    let n = bodies.len();
    let mut rng = match &cfg.strategy {
        Strategy::Random { seed, .. } | Strategy::Pct { seed, .. } => *seed,
        Strategy::Explicit { .. } => 1,
    };
    let mut change_points = vec![];
    if let Strategy::Pct { depth, len, .. } = &cfg.strategy {
        for _ in 0..*depth {
            change_points.push(splitmix(&mut rng) % (*len).max(1));
        }
    }
    let mut threads = vec![];
    for _ in 0..n {
        threads.push(Th {
            status: Status::Ready,
            parker: Parker::new(),
            points: 0,
            stall_until: 0,
            prio: splitmix(&mut rng) | 1 << 40,
        });
    }
    set_clock(cfg.clock.clone());
    let t0 = now_ns_quiet();
    let frng = cfg.seed ^ 0x5EED_FA17;
    let apm = cfg.alloc_permille as u64;
    *lk(&MAIN.0) = false;
    *lk(&STATE) = Some(State {
        cfg,
        threads,
        cur: 0,
        steps: 0,
        decisions: 0,
        switches: 0,
        overrides: vec![],
        sig: 0xcbf2_9ce4_8422_2325,
        rng,
        frng,
        change_points,
        objs: vec![],
        ended: None,
        kills_fired: 0,
        stalls_fired: 0,
        spurious_fired: 0,
        kinds: [0; 16],
        blocks: 0,
        started: true,
        clients: n,
        spins: 0,
    });
    let mut handles = vec![];
    for (id, body) in bodies.into_iter().enumerate() {
        handles.push(
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || enter_thread(id, body))
                .expect("spawn simulated thread"),
        );
    }
    ALLOC_PM.store(apm, Ordering::SeqCst);
    ACTIVE.store(true, Ordering::SeqCst);
    // first decision
    {
        let mut g = lk(&STATE);
        let st = g.as_mut().unwrap();
        match st.pick(None) {
            Some(f) => {
                st.cur = f;
                st.hash(0x5157_0000 + f as u64);
                let p = st.threads[f].parker.clone();
                drop(g);
                p.wake();
            }
            None => st.finish(End::Done),
        }
    }
    {
        let mut m = lk(&MAIN.0);
        while !*m {
            m = MAIN.1.wait(m).unwrap_or_else(PoisonError::into_inner);
        }
    }
    ACTIVE.store(false, Ordering::SeqCst);
    ALLOC_PM.store(0, Ordering::SeqCst);
    let rep = {
        let g = lk(&STATE);
        let st = g.as_ref().unwrap();
        Report {
            end: st.ended.clone().unwrap(),
            steps: st.steps,
            decisions: st.decisions,
            switches: st.switches,
            overrides: st.overrides.clone(),
            signature: st.sig,
            kills_fired: st.kills_fired,
            stalls_fired: st.stalls_fired,
            spurious_fired: st.spurious_fired,
            points: st.threads.iter().map(|t| t.points).collect(),
            kinds: st.kinds,
            blocks: st.blocks,
            sim_ns: now_ns_quiet().saturating_sub(t0),
        }
    };
    if rep.end == End::Done {
        for h in handles {
            let _ = h.join();
        }
        *lk(&STATE) = None;
    }
    rep
}
