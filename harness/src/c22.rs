//! Process metrics report what the kernel says about the process.
//!
//! Each case runs in a process of its own (`harness probe`): it changes the process's state step by step, gathers, and
//! compares with what the kernel says by other ways than those the library uses.
use crate::clock::Virtual;
use crate::engine::*;
use crate::promtext as pt;
use prometrics::metrics::ProcessMetricsCollector;
use prometrics::Gatherer;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicI32, Ordering::SeqCst};
use std::sync::mpsc;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// Opens so many descriptors.
    Open(u16),
    /// Gives a descriptor another number.
    Dup(u16),
    Close(u16),
    SoftLimit(u16),
    /// Raises both limits of open files, where that is permitted.
    BothLimits(u32),
    /// Starts so many threads that wait.
    Threads(u8),
    EndThreads(u8),
    /// Maps megabytes; the flag says whether they are touched.
    Map(u16, bool),
    Unmap,
    /// Burns milliseconds of CPU time, in user mode or in the kernel.
    Burn(u8, bool),
    /// A child process burns milliseconds of CPU time and is waited for.
    Child(u8),
    /// Time passes (on the virtual clock).
    Pass(u32),
    /// The name of the process (its main thread).
    Name(Vec<u8>),
    /// Another collector is created later; both are asked.
    Second,
    /// Opens so many descriptors of a kind: pipe, socket, directory, deleted file, event counter, poll set.
    OpenKind(u8, u8),
    /// The process goes on as a child of itself.
    Fork,
    /// From now on another thread gathers; it is given a name.
    Elsewhere(Vec<u8>),
    /// Another thread burns milliseconds of CPU time; it ends, or waits.
    BurnThread(u8, bool),
    /// The process gives up its privileges.
    Nobody,
    /// Standard input is closed, so that the number 0 is free.
    CloseStdin,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// Time between the start of the process and the creation of the collector.
    delay_ms: u32,
    ops: Vec<Op>,
}
fn strategy(cpu: bool) -> BoxedStrategy<Case> {
    let name = prop_oneof![
        2 => "[ -~]{1,15}".prop_map(|s: String| s.into_bytes()),
        1 => prop::sample::select(vec![b") R 1 1 1".to_vec(), b"a) b (c".to_vec(), b"((".to_vec(), b"))".to_vec(), b"\n".to_vec(), "é日本".as_bytes().to_vec()]),
        1 => prop::collection::vec(1u8..=255, 1..15),
    ];
    let op = prop_oneof![
        4 => prop_oneof![6 => 0u16..20, 6 => 20u16..400, 1 => 400u16..5000].prop_map(Op::Open),
        2 => (500u16..4000).prop_map(Op::Dup),
        3 => prop_oneof![0u16..20, 20u16..400].prop_map(Op::Close),
        2 => prop_oneof![4 => 600u16..4096, 1 => 100u16..600, 1 => 4096u16..=u16::MAX].prop_map(Op::SoftLimit),
        1 => prop_oneof![65_500u32..66_000, 20_000u32..1_000_000].prop_map(Op::BothLimits),
        3 => prop_oneof![8 => 1u8..30, 1 => 30u8..=255].prop_map(Op::Threads),
        2 => (1u8..30).prop_map(Op::EndThreads),
        3 => (8u16..200, any::<bool>()).prop_map(|(m, t)| Op::Map(m, t)),
        1 => (1000u16..60_000).prop_map(|m| Op::Map(m, false)),
        1 => Just(Op::Unmap),
        2 => prop_oneof![0u32..3_000, 0u32..100_000_000].prop_map(Op::Pass),
        2 => name.prop_map(Op::Name),
        1 => Just(Op::Second),
        2 => (0u8..6, 1u8..20).prop_map(|(k, n)| Op::OpenKind(k, n)),
        1 => Just(Op::Fork),
        1 => prop_oneof!["[ -~]{0,15}".prop_map(|s: String| s.into_bytes()), prop::collection::vec(1u8..=255, 1..15)].prop_map(Op::Elsewhere),
        1 => prop_oneof![Just(Op::Nobody), Just(Op::CloseStdin)],
    ]
    .boxed();
    let burn = prop_oneof![1 => (40u8..150, any::<bool>()).prop_map(|(m, w)| Op::BurnThread(m, w)), 2 => (20u8..150, any::<bool>()).prop_map(|(m, k)| Op::Burn(m, k)), 1 => (40u8..150).prop_map(Op::Child)];
    let op = if cpu { prop_oneof![1 => burn, 3 => op].boxed() } else { op };
    (prop_oneof![0u32..3_000, 0u32..2_000_000_000], prop::collection::vec(op, 1..14)).prop_map(|(delay_ms, ops)| Case { delay_ms, ops }).boxed()
}

fn rusage() -> f64 {
    unsafe {
        let mut r: libc::rusage = std::mem::zeroed();
        libc::getrusage(libc::RUSAGE_SELF, &mut r);
        let s = |t: libc::timeval| t.tv_sec as f64 + t.tv_usec as f64 / 1e6;
        s(r.ru_utime) + s(r.ru_stime)
    }
}
fn thread_cpu() -> f64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
    }
}
/// Where to stop looking for descriptors: well above the highest that was ever opened here.
static FD_END: AtomicI32 = AtomicI32::new(1_000);
fn opened(fd: i32) {
    FD_END.fetch_max(fd + 1_000, SeqCst);
}
fn open_fds() -> f64 {
    (0..FD_END.load(SeqCst)).filter(|fd| unsafe { libc::fcntl(*fd, libc::F_GETFD) } >= 0).count() as f64
}
fn soft_limit() -> f64 {
    unsafe {
        let mut r: libc::rlimit = std::mem::zeroed();
        libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
        r.rlim_cur as f64
    }
}
fn threads() -> f64 {
    std::fs::read_dir("/proc/self/task").unwrap().count() as f64
}
/// Virtual and resident bytes.
fn memory() -> (f64, f64) {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap();
    let page = unsafe { libc::sysconf(libc::_SC_PAGESIZE) } as f64;
    let v: Vec<f64> = s.split_whitespace().map(|x| x.parse::<f64>().unwrap() * page).collect();
    (v[0], v[1])
}
struct Reading {
    cpu: f64,
    fds: f64,
    limit: f64,
    threads: f64,
    virt: f64,
    res: f64,
}
fn reading() -> Reading {
    let (virt, res) = memory();
    Reading { cpu: rusage(), fds: open_fds(), limit: soft_limit(), threads: threads(), virt, res }
}
const NAMES: [(&str, &str); 7] = [
    ("process_cpu_seconds_total", "counter"),
    ("process_max_fds", "gauge"),
    ("process_open_fds", "gauge"),
    ("process_resident_memory_bytes", "gauge"),
    ("process_start_time_seconds", "gauge"),
    ("process_threads_total", "gauge"),
    ("process_virtual_memory_bytes", "gauge"),
];
/// The metrics the library takes from /proc/self/stat.
const OF_STAT: [&str; 5] = ["process_cpu_seconds_total", "process_resident_memory_bytes", "process_start_time_seconds", "process_threads_total", "process_virtual_memory_bytes"];

/// What a case in its own process reports back.
#[derive(Serialize, Deserialize, Default)]
pub struct Answer {
    error: Option<String>,
    /// Gathers that lacked exactly the metrics of /proc/self/stat while the process's name was not valid UTF-8.
    unreadable_name: u32,
    gathers: u32,
    changed: Vec<String>,
}
struct One {
    gatherer: Gatherer,
    /// Seconds since the epoch (virtual) at which the collector was created.
    created: f64,
    start_time: Option<f64>,
}
fn compare(one: &mut One, process_start: f64, utf8_name: bool, a: &mut Answer) -> R {
    let before = reading();
    let got = one.gatherer.gather();
    let after = reading();
    a.gathers += 1;
    let text = got.to_text();
    let wrap = |e: String| format!("{}\nin the text:\n{}", e, text);
    let mut values: BTreeMap<String, f64> = BTreeMap::new();
    for f in pt::parse(&text).map_err(wrap)? {
        let want = NAMES.iter().find(|n| n.0 == f.name);
        ensure!(want.map(|w| w.1) == Some(&f.kind[..]), "{}", wrap(format!("unexpected family {} of kind {}", f.name, f.kind)));
        let s = pt::series(&f).map_err(wrap)?;
        ensure!(s.len() == 1 && s[0].labels.is_empty() && s[0].ts.is_none(), "{}", wrap(format!("{} has series {:?}", f.name, s)));
        let pt::Val::Scalar(v) = s[0].val else { return Err(wrap("not a number".into())) };
        ensure!(values.insert(f.name.clone(), v).is_none(), "{}", wrap(format!("{} appears twice", f.name)));
    }
    let mut missing: Vec<&str> = NAMES.iter().map(|n| n.0).filter(|n| !values.contains_key(*n)).collect();
    if !missing.is_empty() && !utf8_name {
        let mut stat = OF_STAT.to_vec();
        stat.sort();
        missing.sort();
        if missing == stat {
            a.unreadable_name += 1;
            missing.clear();
        }
    }
    ensure!(missing.is_empty(), "{}", wrap(format!("{:?} are missing", missing)));
    let check = |name: &str, x: f64, y: f64, slack: f64| -> R {
        let Some(v) = values.get(name) else { return Ok(()) };
        ensure!(*v >= x.min(y) - slack && *v <= x.max(y) + slack, "{} is {}, but the kernel says {} before and {} after", name, v, x, y);
        Ok(())
    };
    const MB: f64 = 1048576.0;
    // The kernel keeps the user and system times of /proc in ticks of 10 ms, each rounded down.
    check("process_cpu_seconds_total", before.cpu, after.cpu, 0.03)?;
    check("process_open_fds", before.fds, after.fds, 0.0)?;
    check("process_max_fds", before.limit, after.limit, 0.0)?;
    check("process_threads_total", before.threads, after.threads, 0.0)?;
    check("process_virtual_memory_bytes", before.virt, after.virt, MB)?;
    // Resident pages are counted per CPU and added up now and then.
    check("process_resident_memory_bytes", before.res, after.res, 3.0 * MB)?;
    if let Some(s) = values.get("process_start_time_seconds") {
        ensure!(*s <= one.created + 1e-6 && *s >= process_start - 1.1, "the start time {} is not between the process's start {} and the collector's creation {}", s, process_start, one.created);
        ensure!(one.start_time.map_or(true, |t| t == *s), "the start time was {:?} and is now {}", one.start_time, s);
        one.start_time = Some(*s);
    }
    Ok(())
}
fn step(op: &Op, state: &mut State, clock: &Virtual) -> R {
    unsafe {
        match op {
            Op::Open(n) => {
                for _ in 0..*n {
                    // Some are left free for whoever else needs one.
                    if state.fds.len() as f64 + 40.0 > soft_limit().min(6000.0) {
                        break;
                    }
                    let fd = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                    if fd < 0 {
                        break;
                    }
                    opened(fd);
                    state.fds.push(fd);
                }
            }
            Op::Dup(to) => {
                let to = *to as i32;
                if (to as f64) < soft_limit() && state.fds.len() as f64 + 40.0 < soft_limit() && libc::fcntl(to, libc::F_GETFD) < 0 && libc::dup2(0, to) == to {
                    opened(to);
                    state.fds.push(to);
                }
            }
            Op::Close(n) => {
                for k in 0..*n {
                    if state.fds.is_empty() {
                        break;
                    }
                    // From the middle, so that gaps arise.
                    let i = (k as usize * 7 + 3) % state.fds.len();
                    libc::close(state.fds.swap_remove(i));
                }
            }
            Op::SoftLimit(n) => {
                let mut r: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
                let free = state.fds.iter().all(|fd| (*fd as u16) < *n) && state.fds.len() + 60 < *n as usize;
                if free && (*n as u64) < r.rlim_max as u64 {
                    r.rlim_cur = *n as libc::rlim_t;
                    libc::setrlimit(libc::RLIMIT_NOFILE, &r);
                }
            }
            Op::BothLimits(n) => {
                let mut r: libc::rlimit = std::mem::zeroed();
                libc::getrlimit(libc::RLIMIT_NOFILE, &mut r);
                if *n as u64 > r.rlim_max as u64 {
                    r.rlim_cur = *n as libc::rlim_t;
                    r.rlim_max = *n as libc::rlim_t + (*n % 3) as libc::rlim_t;
                    libc::setrlimit(libc::RLIMIT_NOFILE, &r);
                }
            }
            Op::Threads(n) => {
                for _ in 0..*n {
                    if state.threads.len() < 300 {
                        let (tx, rx) = mpsc::channel::<()>();
                        let (up, ready) = mpsc::channel();
                        let h = std::thread::Builder::new()
                            .stack_size(128 << 10)
                            .spawn(move || {
                                up.send(()).unwrap();
                                let _ = rx.recv();
                            })
                            .map_err(|e| e.to_string())?;
                        ready.recv().map_err(|e| e.to_string())?;
                        state.threads.push((tx, h));
                    }
                }
            }
            Op::EndThreads(n) => {
                for _ in 0..*n {
                    if let Some((tx, h)) = state.threads.pop() {
                        drop(tx);
                        h.join().map_err(|_| "a waiting thread panicked")?;
                    }
                }
            }
            Op::Map(mb, touch) => {
                let len = (*mb as usize) << 20;
                let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
                if p != libc::MAP_FAILED {
                    if *touch && state.touched + len < 600 << 20 {
                        state.touched += len;
                        for i in (0..len).step_by(4096) {
                            *(p as *mut u8).add(i) = 1;
                        }
                    }
                    state.maps.push((p as usize, len));
                }
            }
            Op::Unmap => {
                if let Some((p, len)) = state.maps.pop() {
                    libc::munmap(p as *mut libc::c_void, len);
                }
            }
            Op::Burn(ms, kernel) => {
                let end = rusage() + *ms as f64 / 1000.0;
                let mut x = 1u64;
                while rusage() < end {
                    if *kernel {
                        for _ in 0..50 {
                            libc::getppid();
                        }
                    } else {
                        for _ in 0..20_000 {
                            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
                        }
                    }
                }
            }
            Op::Child(ms) => {
                let s = Command::new("/proc/self/exe").args(["burn", &ms.to_string()]).stdin(Stdio::null()).status();
                ensure!(s.map_or(false, |s| s.success()), "harness: the child does not run");
            }
            Op::Pass(ms) => clock.advance(Duration::from_millis(*ms as u64)),
            Op::Name(n) => {
                state.utf8_name = std::str::from_utf8(thread_name(n)).is_ok();
            }
            Op::OpenKind(kind, n) => {
                for k in 0..*n as u32 {
                    if state.fds.len() as f64 + 40.0 > soft_limit().min(6000.0) {
                        break;
                    }
                    let mut two = [-1; 2];
                    match kind {
                        0 => {
                            libc::pipe2(two.as_mut_ptr(), libc::O_CLOEXEC);
                        }
                        1 => {
                            libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, two.as_mut_ptr());
                        }
                        2 => two[0] = libc::open(c"/".as_ptr(), libc::O_RDONLY | libc::O_DIRECTORY),
                        3 => two[0] = libc::memfd_create(c"gone (deleted)".as_ptr(), 0),
                        4 => two[0] = libc::eventfd(k, 0),
                        _ => two[0] = libc::epoll_create1(0),
                    }
                    for fd in two {
                        if fd >= 0 {
                            opened(fd);
                            state.fds.push(fd);
                        }
                    }
                }
            }
            Op::Fork => {
                let child = libc::fork();
                if child > 0 {
                    let mut status = 0;
                    libc::waitpid(child, &mut status, 0);
                    libc::_exit(if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { 99 });
                }
                if child == 0 {
                    // The other threads do not exist here.
                    std::mem::forget(std::mem::take(&mut state.threads));
                    state.forked = true;
                }
            }
            Op::Elsewhere(name) => state.elsewhere = Some(name.clone()),
            Op::BurnThread(ms, wait) => {
                let (tx, rx) = mpsc::channel::<()>();
                let (up, ready) = mpsc::channel();
                let ms = *ms as u64;
                let h = std::thread::spawn(move || {
                    let start = thread_cpu();
                    let mut x = 1u64;
                    while thread_cpu() < start + ms as f64 / 1000.0 {
                        for _ in 0..20_000 {
                            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
                        }
                    }
                    up.send(()).unwrap();
                    let _ = rx.recv();
                });
                ready.recv().map_err(|e| e.to_string())?;
                if *wait {
                    state.threads.push((tx, h));
                } else {
                    drop(tx);
                    h.join().map_err(|_| "a burning thread panicked")?;
                }
            }
            Op::Nobody => {
                libc::setresuid(65534, 65534, 65534);
            }
            Op::CloseStdin => {
                libc::close(0);
            }
            Op::Second => {
                let mut g = Gatherer::new();
                g.registry().register(ProcessMetricsCollector::default());
                state.second = Some(One { gatherer: std::mem::take(&mut g), created: clock.real_ns() as f64 / 1e9, start_time: None });
            }
        }
    }
    Ok(())
}
/// Names this thread; gives what is kept of the name.
fn thread_name(n: &[u8]) -> &[u8] {
    let mut b = [0u8; 16];
    let len = n.len().min(15);
    b[..len].copy_from_slice(&n[..len]);
    unsafe { libc::prctl(libc::PR_SET_NAME, b.as_ptr()) };
    &n[..len]
}
struct State {
    fds: Vec<i32>,
    threads: Vec<(mpsc::Sender<()>, std::thread::JoinHandle<()>)>,
    maps: Vec<(usize, usize)>,
    touched: usize,
    utf8_name: bool,
    second: Option<One>,
    elsewhere: Option<Vec<u8>>,
    forked: bool,
}
fn run(c: &Case, a: &mut Answer) -> R {
    // The real start of the process, no later than now.
    let process_start = process_start()?;
    let now = SystemTime::now().duration_since(UNIX_EPOCH).map_err(|e| e.to_string())?;
    let clock = Virtual::at(now.as_nanos() as i128);
    clock.advance(Duration::from_millis(c.delay_ms as u64));
    let gatherer = Gatherer::new();
    let created = clock.real_ns() as f64 / 1e9;
    gatherer.registry().register(ProcessMetricsCollector::new());
    let mut one = One { gatherer, created, start_time: None };
    let mut state = State { fds: vec![], threads: vec![], maps: vec![], touched: 0, utf8_name: true, second: None, elsewhere: None, forked: false };
    compare(&mut one, process_start, true, a)?;
    for op in &c.ops {
        step(op, &mut state, &clock)?;
        let mut all: Vec<&mut One> = std::iter::once(&mut one).chain(&mut state.second).collect();
        if std::mem::take(&mut state.forked) {
            // This process was started after its collectors were created. Either time will do.
            let now = SystemTime::UNIX_EPOCH.elapsed().map_or(0.0, |d| d.as_secs_f64()) + 1.1;
            all.iter_mut().for_each(|o| (o.created, o.start_time) = (o.created.max(now), None));
        }
        for (i, o) in all.into_iter().enumerate() {
            let utf8_name = state.utf8_name;
            let r = match &state.elsewhere {
                Some(name) => std::thread::scope(|s| {
                    s.spawn(|| {
                        thread_name(name);
                        compare(o, process_start, utf8_name, a)
                    })
                    .join()
                    .unwrap_or(Err("the gathering thread panicked".into()))
                }),
                None => compare(o, process_start, utf8_name, a),
            };
            r.map_err(|e| format!("collector {}, after {:?}: {}", i, op, e))?;
        }
    }
    Ok(())
}
/// When this process was started, by the kernel's account, in seconds since the epoch.
fn process_start() -> Result<f64, String> {
    let stat = std::fs::read("/proc/self/stat").map_err(|e| e.to_string())?;
    let end = stat.iter().rposition(|b| *b == b')').ok_or("stat")?;
    let rest = String::from_utf8_lossy(&stat[end + 2..]).to_string();
    let ticks: f64 = rest.split_whitespace().nth(19).ok_or("stat")?.parse().map_err(|_| "stat")?;
    let uptime = std::fs::read_to_string("/proc/uptime").map_err(|e| e.to_string())?;
    let up: f64 = uptime.split_whitespace().next().ok_or("uptime")?.parse().map_err(|_| "uptime")?;
    let now = SystemTime::now().duration_since(UNIX_EPOCH).map_err(|e| e.to_string())?.as_secs_f64();
    Ok(now - (up - ticks / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as f64))
}
/// `harness probe`: runs the case given on standard input.
pub fn probe() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let c: Case = serde_json::from_str(&s).unwrap();
    let mut a = Answer::default();
    a.error = guarded(|| run(&c, &mut a)).err();
    print!("{}", serde_json::to_string(&a).unwrap());
}
/// `harness burn MS`: burns CPU time.
pub fn burn(ms: u64) {
    let mut x = 1u64;
    while rusage() < ms as f64 / 1000.0 {
        for _ in 0..20_000 {
            x = std::hint::black_box(x.wrapping_mul(6364136223846793005).wrapping_add(1));
        }
    }
}
fn oracle(c: &Case, cx: &mut Cx) -> R {
    let io = |e: std::io::Error| format!("harness: {}", e);
    let mut child = Command::new("/proc/self/exe").arg("probe").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().map_err(io)?;
    child.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).map_err(io)?;
    let out = child.wait_with_output().map_err(io)?;
    let Ok(a) = serde_json::from_slice::<Answer>(&out.stdout) else {
        return Err(format!("the process ends with {:?} and says {:?} {:?}", out.status, String::from_utf8_lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)));
    };
    if let Some(e) = a.error {
        return Err(e);
    }
    if a.unreadable_name > 0 {
        cx.finding("process-name-not-utf8", format!("{:?} are missing while the process's name is not valid UTF-8", OF_STAT))?;
    }
    let has = |f: &dyn Fn(&Op) -> bool| c.ops.iter().any(f);
    cx.class_if(has(&|o| matches!(o, Op::Open(n) | Op::Close(n) if *n > 0)), "descriptors opened or closed");
    cx.class_if(has(&|o| matches!(o, Op::Dup(_))), "descriptor with a high number");
    cx.class_if(has(&|o| matches!(o, Op::SoftLimit(_))), "soft limit set");
    cx.class_if(has(&|o| matches!(o, Op::Threads(_))), "threads started");
    cx.class_if(has(&|o| matches!(o, Op::Map(_, true))), "memory touched");
    cx.class_if(has(&|o| matches!(o, Op::Map(_, false))), "memory only mapped");
    cx.class_if(has(&|o| matches!(o, Op::Burn(_, true))), "CPU time in the kernel");
    cx.class_if(has(&|o| matches!(o, Op::Burn(_, false))), "CPU time in user mode");
    cx.class_if(has(&|o| matches!(o, Op::Child(_))), "CPU time of a child");
    cx.class_if(has(&|o| matches!(o, Op::Name(_))), "process renamed");
    cx.class_if(has(&|o| matches!(o, Op::Second)), "a second collector");
    cx.class_if(has(&|o| matches!(o, Op::OpenKind(..))), "descriptors of all kinds");
    cx.class_if(has(&|o| matches!(o, Op::Fork)), "forked");
    cx.class_if(has(&|o| matches!(o, Op::Elsewhere(_))), "another thread gathers");
    cx.class_if(has(&|o| matches!(o, Op::BurnThread(..))), "CPU time of another thread");
    cx.class_if(has(&|o| matches!(o, Op::Nobody)), "without privileges");
    cx.nontrivial(a.gathers >= 3);
    Ok(())
}
pub fn check() -> Check {
    Check {
        id: "C22",
        level: "exploration",
        assumptions: &["the kernel's own accounts through getrusage, fcntl, getrlimit, /proc/self/task and /proc/self/statm are right", "at least 40 descriptors are free, so the collector can open what it needs"],
        subs: vec![
            sub("states", "three or more gathers of a process whose state changes between them", 600, 30_000, || strategy(false), oracle),
            sub("cpu", "the same, with CPU time burnt", 160, 6_000, || strategy(true), oracle),
        ],
    }
}
