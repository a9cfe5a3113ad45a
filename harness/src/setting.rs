//! Where a case takes place: what holds for the crate holds in every place from which a program may call it.
use prometrics::metric::Metric;
use prometrics::metrics::{Counter, Gauge, Histogram, Summary};
use prometrics::{Collect, Gatherer};
use std::cell::Cell;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Setting {
    Plain,
    /// In a destructor, while the thread unwinds.
    Unwinding,
    /// In a collector, in a gather of another gatherer.
    Gathering,
    /// In code timed and tracked by other metrics.
    Timed,
    /// In the sink that another gather result is rendered into.
    Rendering,
}
use Setting::*;
pub const ALL: [Setting; 5] = [Plain, Unwinding, Gathering, Timed, Rendering];
thread_local! { static NOW: Cell<Setting> = const { Cell::new(Plain) }; }
pub fn get() -> Setting {
    NOW.with(|n| n.get())
}
pub fn set(s: Setting) {
    NOW.with(|n| n.set(s));
}
/// The setting of the n-th case: mostly the plain one.
pub fn nth(n: u64) -> Setting {
    ALL[if n % 16 < 12 { 0 } else { n as usize % 16 - 11 }]
}
pub fn parse(s: &str) -> Setting {
    *ALL.iter().find(|x| format!("{:?}", x) == s).expect("a setting")
}
impl Setting {
    pub fn class(self) -> Option<&'static str> {
        match self {
            Plain => None,
            Unwinding => Some("in a destructor while unwinding"),
            Gathering => Some("within a gather of another gatherer"),
            Timed => Some("in code timed and tracked by other metrics"),
            Rendering => Some("in a sink being rendered into"),
        }
    }
}

/// The one call, wherever it is made from.
struct Call<'a>(&'a mut dyn FnMut());
struct Collector(*mut Call<'static>);
unsafe impl Send for Collector {}
impl Collect for Collector {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        unsafe { ((*self.0).0)() };
        None
    }
}
struct Sink<'a>(Call<'a>);
impl<'a> Write for Sink<'a> {
    fn write_str(&mut self, _: &str) -> fmt::Result {
        (self.0 .0)();
        Ok(())
    }
}
struct OnDrop<'a>(Call<'a>);
impl<'a> Drop for OnDrop<'a> {
    fn drop(&mut self) {
        (self.0 .0)()
    }
}
/// Calls `f` once in the current setting; what it panics with is passed on.
pub fn within<T>(f: impl FnOnce() -> T) -> T {
    let setting = get();
    let mut f = Some(f);
    let mut result = None;
    if setting == Plain {
        return f.take().unwrap()();
    }
    let mut call = || {
        if let Some(f) = f.take() {
            result = Some(catch_unwind(AssertUnwindSafe(f)));
        }
    };
    match setting {
        Plain => unreachable!(),
        Unwinding => {
            let _ = catch_unwind(AssertUnwindSafe(|| {
                let _d = OnDrop(Call(&mut call));
                resume_unwind(Box::new(()));
            }));
        }
        Gathering => {
            let mut g = Gatherer::new();
            let mut call = Call(&mut call);
            // (The gatherer is gone before the call.)
            g.registry().register(Collector(&mut call as *mut Call as *mut Call<'static>));
            g.gather();
        }
        Timed => {
            let (c, g) = (Counter::new("c").unwrap(), Gauge::new("g").unwrap());
            let (h, s) = (Histogram::new("h").unwrap(), Summary::new("s", Duration::from_secs(1)).unwrap());
            c.time(|| g.track_inprogress(|| h.time(|| s.time(|| g.time(&mut call)))));
        }
        Rendering => {
            let mut g = Gatherer::new();
            let c = Counter::new("c").unwrap();
            g.registry().register(c.collector());
            let families = g.gather();
            for f in families.as_ref() {
                let _ = write!(Sink(Call(&mut call)), "{}", f);
            }
        }
    }
    match result.expect("called") {
        Ok(x) => x,
        Err(e) => resume_unwind(e),
    }
}
